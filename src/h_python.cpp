// P01: the Python module against the C functions. The interpreter is embedded,
// the module is linked in.
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include "cpp_api.hpp"
#include "key_gen.hpp"
#include "print_text.hpp"
#include "cpp/key.hpp"
#include "cpp/include_transform.hpp"
#include <iostream>
#include <sstream>
namespace py = pybind11;
using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

extern "C" PyObject *PyInit_dynareadout();

static const char *HELPERS =
#include "pyops.inc"
    ;

static py::dict *helpers;
static void start_python() {
  if (helpers)
    return;
  setenv("PYTHONHASHSEED", "0", 1);
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  PyImport_AppendInittab("dynareadout", PyInit_dynareadout);
  py::initialize_interpreter(false);
  helpers = new py::dict();
  (*helpers)["__builtins__"] = py::module_::import("builtins");
  py::exec(HELPERS, *helpers);
}
static py::object fn(const char *name) { return (*helpers)[name]; }

static bool utf8(const string &s) {
  PyObject *u = PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), nullptr);
  if (!u) {
    PyErr_Clear();
    return false;
  }
  Py_DECREF(u);
  return true;
}
// text as Python code would have it
static py::object text(const string &s) {
  return utf8(s) ? py::object(py::str(s)) : py::object(py::bytes(s));
}

static unsigned long compared, failing;
static void same(const string &p, const string &c, const string &what) {
  compared++;
  failing += c.compare(0, 6, "error:") == 0;
  REQUIRE(p == c, "%s: Python gives\n  %.700s\nthe C API\n  %.700s",
          what.c_str(), p.c_str(), c.c_str());
}

// Calls f; RuntimeError becomes "error: message", any other exception fails.
// A message or name that is no valid UTF-8 can not be shown by Python.
template <class F> static string guarded(const string &what, const F &f) {
  try {
    return f();
  } catch (py::error_already_set &e) {
    string msg;
    try {
      if (e.matches(PyExc_UnicodeDecodeError))
        return "error: ?";
      msg = py::bytes(fn("encode")(e.value()));
    } catch (py::error_already_set &) {
      msg = "?";
    }
    if (e.matches(PyExc_RuntimeError))
      return "error: " + msg;
    string type = py::str(e.type().attr("__name__"));
    if (type == "Bad")
      pbt::fail("%s: %s", what.c_str(), msg.c_str());
    pbt::fail("%s: Python raises %s: %s", what.c_str(), type.c_str(), msg.c_str());
  }
}
static void same_or_unshowable(const string &p, const string &c,
                               const string &what) {
  if (p == "error: ?" && c.compare(0, 6, "error:") == 0 && !utf8(c))
    return;
  same(p, c, what);
}

// ------------------------------------------------------------------ binout
static const char *const TYPES[] = {
    "",           "Int8Array",   "Int16Array",  "Int32Array",
    "Int64Array", "Uint8Array",  "Uint16Array", "Uint32Array",
    "Uint64Array", "FloatArray", "DoubleArray"};
template <class T> static void put(string &s, const py::handle &v) {
  T x = v.cast<T>();
  if constexpr (std::is_floating_point_v<T>)
    if (x != x)
      x = std::numeric_limits<T>::quiet_NaN();
  s.append((const char *)&x, sizeof x);
}
template <class T> static void quiet(string &s) {
  for (size_t i = 0; i + sizeof(T) <= s.size(); i += sizeof(T)) {
    T x;
    memcpy(&x, &s[i], sizeof x);
    if (x != x)
      x = std::numeric_limits<T>::quiet_NaN();
    memcpy(&s[i], &x, sizeof x);
  }
}
static string numbers(size_t n, size_t steps, const string &data, int type) {
  string d = data;
  if (type == 9)
    quiet<float>(d);
  if (type == 10)
    quiet<double>(d);
  return pbt::fmt("%s n=%zu steps=%zu ", TYPES[type], n, steps) +
         pbt::hexdump(d.data(), d.size());
}
static string py_read(const py::object &b, const string &path, bool deflt) {
  py::tuple t = fn("b_read")(b, text(path), deflt);
  string kind = py::str(t[0]), type = py::str(t[1]);
  if (kind == "empty")
    return "nothing";
  if (kind == "children") {
    string s = "children";
    for (auto n : py::list(t[2]))
      s += " [" + string(py::bytes(py::reinterpret_borrow<py::object>(n))) + "]";
    return s;
  }
  int k = 1;
  while (k < 11 && type != TYPES[k])
    k++;
  REQUIRE(k < 11, "array of type %s", type.c_str());
  py::list l = t[3];
  string data;
  size_t n = l.size() ? py::list(l[0]).size() : 0;
  for (auto a : l) {
    REQUIRE(py::len(a) == n, "time steps of different sizes");
    for (auto v : a)
      switch (k) {
#define R(k, T)                                                                \
  case k:                                                                      \
    put<T>(data, v);                                                           \
    break;
        R(1, int8_t)
        R(2, int16_t)
        R(3, int32_t)
        R(4, int64_t)
        R(5, uint8_t)
        R(6, uint16_t)
        R(7, uint32_t)
        R(8, uint64_t)
        R(9, float)
        R(10, double)
#undef R
      }
  }
  return numbers(n, kind == "timed" ? l.size() : 0, data, k);
}
static string c_names(const vector<string> &v) {
  if (v.empty())
    return "nothing";
  string s = "children";
  for (auto &n : v)
    s += " [" + n + "]";
  return s;
}
// what Binout.read has to give for a path
static string c_read(binout_file *f, const string &path) {
  auto s = ba::simple(f, path);
  if (!s.ok)
    return "error: no path";
  if (s.type >= 1 && s.type <= 10) {
    auto r = s.timed ? ba::read_timed(f, s.path, s.type)
                     : ba::read(f, s.path, s.type);
    if (r.has_error)
      return "error: " + r.error;
    if (s.timed && r.steps == 0)
      return "nothing";
    return numbers(r.n, s.timed ? r.steps : 0, r.data, s.type);
  }
  if (s.timed)
    return "error: ";
  auto c = ba::children(f, s.path);
  if (c.null && c.n == (size_t)~0)
    return "error: no path";
  if (!c.names.empty() && c.names.back() == "metadata" &&
      c.names[0] == "d000001") {
    auto m = ba::children(f, s.path + "/metadata"),
         d = ba::children(f, s.path + "/d000001");
    if ((m.null && m.n == (size_t)~0) || (d.null && d.n == (size_t)~0))
      return "error: no path";
    m.names.insert(m.names.end(), d.names.begin(), d.names.end());
    std::sort(m.names.begin(), m.names.end());
    pbt::label("metadata and first state listed together");
    return c_names(m.names);
  }
  return c_names(c.names);
}
static void p01_binout() {
  pbt::label("binout");
  auto s = bo::gen_scene(chance(1, 6) ? bo::SOME : bo::NONE, pbt::dir());
  string pattern =
      chance(1, 15) ? pbt::dir() + "/nope/" + string(draw(300), 'x') + "*" : s.pattern;
  ba::Handle h(pattern);
  bool no_error;
  string err = h.open_error(&no_error);
  py::object b;
  string opened = guarded("opening", [&] {
    b = fn("b_open")(text(pattern));
    return string("ok");
  });
  same_or_unshowable(opened, no_error ? "ok" : "error: " + err, "opening");
  if (!no_error) {
    pbt::label("opening fails");
    return;
  }
  size_t n = 4 + pbt::sized(16);
  string desc = "binout: ";
  for (size_t i = 0; i < n; i++) {
    bo::Op o = bo::gen_op(s);
    bool listing = false;
    if (o.path.empty())
      o.path = "/";
    if (chance(1, 2) && o.kind <= 1) // simple path of the variable
      for (size_t k; (k = o.path.find("/d000001")) != string::npos;)
        o.path.erase(k, 8);
    if (chance(1, 5) && !s.vars.empty()) { // list the folder of a result
      auto p = s.vars[draw(s.vars.size())];
      while (p.size() > 1 && !bo::is_d(p.back()))
        p.pop_back();
      if (p.size() > 1)
        p.pop_back();
      o.path = bo::spell(p);
      listing = true;
    }
    binout_file *f = h.p();
    string path = o.path, what, want, got;
    auto real = ba::simple(f, path);
    const string none =
        real.ok ? "" : pbt::fmt("error: %s", path.c_str());
    switch (listing ? 5 : draw(6)) {
    case 0:
      what = "get_type_id(" + path + ")";
      want = real.ok ? pbt::fmt("%d", real.type) : none;
      got = guarded(what, [&] {
        return string(py::str(fn("b_type")(b, text(path))));
      });
      break;
    case 1:
      what = "variable_exists(" + path + ")";
      want = real.ok ? "1" : "0";
      got = guarded(what, [&] {
        return string(py::str(fn("b_exists")(b, text(path))));
      });
      break;
    case 2: {
      what = "get_num_timesteps(" + path + ")";
      size_t k = real.ok ? binout_get_num_timesteps(f, real.path.c_str()) : 0;
      want = !real.ok ? none : k == (size_t)~0 ? "error: " : pbt::fmt("%zu", k);
      got = guarded(what, [&] {
        return string(py::str(fn("b_steps")(b, text(path))));
      });
      break;
    }
    default: {
      bool deflt = path == "/" && chance(1, 2);
      what = "read(" + path + ")";
      want = c_read(f, path);
      got = guarded(what, [&] { return py_read(b, path, deflt); });
    }
    }
    if (i < 6)
      desc += what + "; ";
    // the wording of these messages is the wrapper's
    if (!real.ok || want == "error: " || want == "error: no path") {
      if (want.compare(0, 6, "error:") == 0) {
        REQUIRE(got.compare(0, 6, "error:") == 0, "%s: no exception but %.300s",
                what.c_str(), got.c_str());
        REQUIRE(got.size() > 7, "%s: an empty message", what.c_str());
        failing++;
        compared++;
        continue;
      }
    }
    same_or_unshowable(got, want, what);
  }
  pbt::sample(desc);
}

// ------------------------------------------------------------------ d3plot
using da::Call;
using da::Val;
static bool has_python(int op) {
  switch (op) {
  case da::RUN_TIME:
  case da::COORDS32:
  case da::VEL32:
  case da::ACC32:
  case da::TIME32:
  case da::ALL_COORDS32:
  case da::ALL_VEL32:
  case da::ALL_ACC32:
  case da::ALL_TIME32:
    return false;
  }
  return true;
}
// the result as Python can show it
static void as_python(Val &v, int op) {
  if (v.err)
    return;
  if (op == da::BEAM_CON && !v.u.empty()) {
    // the two unused values after each orientation node are not shown
    size_t n = 0;
    while (n * 3 < v.u.size() && v.u.size() != n * 3 + 1 + n * 3)
      n++;
    vector<da::u64> u;
    for (size_t i = 0; i < n; i++)
      u.push_back(v.u[i * 3]);
    u.insert(u.end(), v.u.begin() + (long)n * 3, v.u.end());
    v.u = u;
  }
}
template <class E> static void put_mean(Val &v, const E &e, const d3plot_surface &m) {
  da::put_surface(v, m, e.num_history_variables);
  d3plot_free_surface(m);
}
// the means of the shells follow after all of them
static void add_means(Val &v, d3plot_file *f, const Call &c) {
  size_t n;
  if (v.err)
    return;
  if (c.op == da::SHELLS) {
    auto *a = d3plot_read_shells_state(f, c.arg, &n);
    for (size_t i = 0; i < n; i++)
      put_mean(v, a[i], d3plot_get_shell_mean(&a[i]));
    d3plot_free_shells_state(a);
  } else if (c.op == da::TSHELLS) {
    auto *a = d3plot_read_thick_shells_state(f, c.arg, &n);
    for (size_t i = 0; i < n; i++)
      put_mean(v, a[i], d3plot_get_thick_shell_mean(&a[i]));
    d3plot_free_thick_shells_state(a);
  }
}
static void p01_d3plot() {
  pbt::label("d3plot");
  using namespace dops;
  auto st = (Style)pbt::weighted({4, 1, 1});
  Family f = gen_family(Limits{12, 5, 4, 4, false, 300}, pbt::dir(), st);
  string root = chance(1, 20) ? f.root + string(draw(300), 'x') : f.root;
  da::Handle h(root);
  py::object p;
  string opened = guarded("opening", [&] {
    p = fn("d_open")(text(root));
    return string("ok");
  });
  same_or_unshowable(opened, h.ok() ? "ok" : "error: " + h.error(), "opening");
  if (!h.ok()) {
    pbt::label("opening fails");
    return;
  }
  size_t k = fn("states")(p).cast<size_t>();
  REQUIRE(k == h.f.num_states, "%zu states, C API %zu", k, h.f.num_states);
  string desc = describe(f) + " calls: ";
  size_t n = 6 + pbt::sized(16);
  for (size_t i = 0; i < n; i++) {
    int op = (int)draw(da::NUM_OPS);
    if (!has_python(op))
      op = da::SHELLS;
    Call c = da::gen_call(f.m, op);
    if (i < 6)
      desc += da::text_of(c) + "; ";
    Val want = da::call(h.p(), c);
    xa::as_cpp(want, h.f, c.op);
    as_python(want, c.op);
    add_means(want, h.p(), c);
    if (c.op == da::EPOCH && !want.err && want.u[0] > 9000000000ull)
      continue; // a time point counts nanoseconds
    bool drop = chance(1, 3);
    string got = guarded(da::text_of(c), [&] {
      py::tuple t = fn("d_call")(p, da::name(c.op), c.arg, c.mask, drop);
      Val v;
      for (auto x : py::list(t[0]))
        v.u.push_back(x.cast<da::u64>());
      for (auto x : py::list(t[1]))
        v.d.push_back(x.cast<double>());
      for (auto x : py::list(t[2]))
        v.s.push_back(py::bytes(py::reinterpret_borrow<py::object>(x)));
      return da::text_of(v);
    });
    same_or_unshowable(got, da::text_of(want), da::text_of(c));
  }
  pbt::sample(desc);
}

// ------------------------------------------------------------------ key files
static string slice_text(const keyword_t *s, size_t n) {
  string r;
  for (size_t i = 0; i < n; i++) {
    r += "keyword\n";
    for (size_t j = 0; j < s[i].num_cards; j++) {
      string c = s[i].cards[j].string;
      r += utf8(c) ? "  " + c + "|\n" : "  ?|\n";
    }
  }
  return r;
}
static string py_slice_text(const py::object &o) {
  string r;
  for (auto k : py::list(o)) {
    r += "keyword\n";
    for (auto c : py::reinterpret_borrow<py::list>(k))
      r += c.is_none() ? "  ?|\n"
                       : "  " + string(py::bytes(py::reinterpret_borrow<py::object>(c))) + "|\n";
  }
  return r;
}
static void p01_key_files() {
  pbt::label("key files");
  string file, cwd = pbt::dir();
  kg::Config cfg;
  if (chance(1, 2)) {
    file = pbt::dir() + "/a.k";
    auto t = kg::gen_text(14, file, false);
    pbt::write_file(file, t.text);
    if (chance(1, 12))
      file += "x"; // does not exist
  } else {
    auto t = kg::gen_tree(6, pbt::dir(), true);
    file = t.root_arg;
    cwd = t.cwd;
    cfg = t.cfg;
    kg::Cwd there(cwd);
    kg::Evaluator few(t); // discards trees of very many includes
  }
  kg::Cwd cd(cwd);
  kg::CConfig cc(cfg);
  size_t n = 0;
  char *err, *warn;
  keyword_t *kw = key_file_parse(file.c_str(), &n, &cc.c, &err, &warn);
  string cerr_ = err ? string("error: ") + err : "ok";
  string cwarn = warn ? string(warn) + "\n" : "";
  free(err);
  free(warn);
  bool out = chance(4, 5);
  py::list extra;
  for (auto &e : cfg.extra)
    extra.append(text(e));
  std::ostringstream captured;
  auto *old = std::cout.rdbuf(captured.rdbuf());
  py::object ks;
  string got = "?";
  try {
    got = guarded("parsing", [&] {
      ks = fn("k_parse")(text(file), out, cfg.includes, cfg.ignore, extra,
                         (int)draw(2));
      return string("ok");
    });
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  same_or_unshowable(got, cerr_, "parsing");
  // there is nowhere to show warnings when the parser fails
  if (cerr_ == "ok")
    same(captured.str(), out ? cwarn : "", "warnings shown");
  pbt::label_if(cerr_ != "ok", "parsing fails");
  pbt::label_if(!cwarn.empty(), "warnings");
  if (ks && cerr_ == "ok") {
    REQUIRE(py::len(ks) == n, "%zu keywords, C API %zu", py::len(ks), n);
    vector<string> names;
    for (size_t i = 0; i < n; i++)
      if (names.empty() || names.back() != kw[i].name)
        names.push_back(kw[i].name);
    for (auto &name : names) {
      size_t sn;
      keyword_t *s = key_file_get_slice(kw, n, name.c_str(), &sn);
      bool drop = chance(1, 3);
      string x = guarded("slice " + name, [&] {
        return py_slice_text(fn("k_slice")(ks, text(name), drop));
      });
      same(x, slice_text(s, sn), "keywords " + name);
    }
    for (const string &name : {string("NO_SUCH_KEYWORD"), string(500, 'N')}) {
      if (std::find(names.begin(), names.end(), name) != names.end())
        continue;
      string x = guarded("slice " + name, [&] {
        return py_slice_text(fn("k_slice")(ks, text(name), false));
      });
      REQUIRE(x.compare(0, 6, "error:") == 0 && x.find(name) != string::npos,
              "looking up the missing keyword %s gives %s", name.c_str(), x.c_str());
    }
  }
  key_file_free(kw, n);
  pbt::sample("key file " + file + pbt::fmt(": %zu keywords", n));
}

// ------------------------------------------------------------------ cards
static string own(char *p) {
  string s = p ? p : "(null)";
  free(p);
  return s;
}
static string dbl(double d) {
  return d != d ? string("nan") : "float " + pbt::fmt("%.17g", d);
}
static string c_int(const card_t *c, int w) {
  int64_t v = w < 0 ? card_parse_int(c) : card_parse_int_width(c, (uint8_t)w);
  return errno ? string("error: ") + strerror(errno)
               : pbt::fmt("int %lld", (long long)v);
}
static string c_float(const card_t *c, int w) {
  double v = w < 0 ? card_parse_float64(c) : card_parse_float64_width(c, (uint8_t)w);
  return errno ? string("error: ") + strerror(errno) : dbl(v);
}
static string c_str(const card_t *c, int w, bool trim) {
  if (w < 0)
    return "str " + own(trim ? card_parse_string(c) : card_parse_string_no_trim(c));
  return "str " + own(trim ? card_parse_string_width(c, (uint8_t)w)
                           : card_parse_string_width_no_trim(c, (uint8_t)w));
}
static string c_any(const card_t *c, int w, bool trim) {
  if (w < 0 ? card_parse_is_empty(c) : card_parse_is_empty_width(c, (uint8_t)w))
    return "none";
  switch (w < 0 ? card_parse_get_type(c)
                : card_parse_get_type_width(c, (uint8_t)w)) {
  case CARD_PARSE_INT:
    return c_int(c, w);
  case CARD_PARSE_FLOAT:
    return c_float(c, w);
  }
  return c_str(c, w, trim);
}
static bool failed_as(const string &x, const string &c) {
  return x.size() >= c.size() - 7 &&
         x.compare(x.size() - (c.size() - 7), string::npos, c, 7) == 0;
}
// messages of the wrapper end with the text of the C error
static void same_value(const string &p, const string &c, const string &what) {
  if (c.compare(0, 7, "error: ") == 0 && p.compare(0, 7, "error: ") == 0 &&
      failed_as(p, c)) {
    compared++;
    failing++;
    return;
  }
  same_or_unshowable(p, c, what);
}
// the Python module has cards of key files only
static py::object card_of(const string &text_, const string &name, py::object *ks) {
  string file = pbt::dir() + "/" + name;
  pbt::write_file(file, "*X\n" + text_ + "\n");
  *ks = fn("k_parse")(text(file), false, true, false, py::list(), 0);
  return fn("k_card")(*ks, text("X"), 0, 0);
}
static void p01_cards() {
  pbt::label("cards");
  string t;
  if (chance(1, 2)) {
    size_t n = 1 + draw(8);
    for (size_t i = 0; i < n; i++)
      t += kg::gen_field(chance(1, 4));
    if (chance(1, 3))
      t.resize(1 + draw(t.size()));
  } else
    t = kg::gen_card(kg::gen_style()).substr(0, 240);
  for (char &c : t)
    if (c == '\n' || c == '\r' || c == 0 || c & 0x80)
      c = '.';
  if (t.empty() || t[0] == '*' || t[0] == '$')
    t = "1" + t;
  pbt::sample("card '" + t + "'");
  py::object ks, card = card_of(t, "c.k", &ks);
  if (chance(1, 3))
    ks = py::none(); // the card keeps its file
  card_t cc{(char *)t.c_str(), 0, 0};
  auto step = [&](const char *op, int w, int v, bool trim) {
    string what = pbt::fmt("%s(%d, %d) at %d of '%s'", op, v, (int)trim,
                           (int)cc.current_index, t.c_str());
    return guarded(what, [&] {
      return string(py::bytes(fn("c_step")(card, op, w, v, trim)));
    });
  };
  auto at = [&](const char *op, int v) {
    return pbt::fmt("%s(%d) at %d of '%s'", op, v, (int)cc.current_index, t.c_str());
  };
  int w = chance(1, 2) ? 10 : 1 + (int)draw(40);
  bool deflt = w == 10 && chance(1, 2);
  card_parse_begin(&cc, (uint8_t)w);
  step("begin", w, deflt ? -1 : w, true);
  for (int i = 0; i < 30; i++) {
    bool done = card_parse_done(&cc) != 0;
    same(step("done", w, -1, true), done ? "1" : "0", at("done", -1));
    int v = chance(1, 3) ? -1 : chance(1, 2) ? w : 1 + (int)draw(40);
    same(step("empty", w, v, true),
         (v < 0 ? card_parse_is_empty(&cc)
                : card_parse_is_empty_width(&cc, (uint8_t)v))
             ? "1"
             : "0",
         at("is_empty", v));
    if (done)
      break;
    bool trim = chance(1, 2);
    switch (draw(4)) {
    case 0:
      same_value(step("i64", w, v, trim), c_int(&cc, v), at("parse_i64", v));
      break;
    case 1:
      same_value(step("f64", w, v, trim), c_float(&cc, v), at("parse_f64", v));
      break;
    case 2:
      same_value(step("str", (int)draw(2), v, trim), c_str(&cc, v, trim),
                 at("parse_str", v));
      break;
    default:
      same_value(step("parse", w, v, trim), c_any(&cc, v, trim), at("parse", v));
    }
    int k = chance(1, 2) ? -1 : v < 0 ? 1 + (int)draw(30) : v;
    if (k < 0)
      card_parse_next(&cc);
    else
      card_parse_next_width(&cc, (uint8_t)k);
    step("next", w, k, trim);
  }
  // the card in one call
  vector<int> widths;
  if (chance(2, 3)) {
    size_t n = 1 + draw(9);
    for (size_t i = 0; i < n; i++)
      widths.push_back(chance(1, 2) ? 10 : 1 + (int)draw(30));
  }
  card_t cw{(char *)t.c_str(), 0, 0};
  card_parse_begin(&cw, 10);
  string want, bad;
  for (size_t i = 0; widths.empty() ? !card_parse_done(&cw) : i < widths.size(); i++) {
    int k = widths.empty() ? 10 : widths[i];
    string v = c_any(&cw, k, true);
    if (v.compare(0, 6, "error:") == 0) {
      bad = v;
      break;
    }
    want += v + "|";
    card_parse_next_width(&cw, (uint8_t)k);
  }
  string got = guarded("parse_whole", [&] {
    string s;
    py::list l = fn("c_whole")(card, widths);
    for (auto x : l)
      s += string(py::bytes(py::reinterpret_borrow<py::object>(x))) + "|";
    return s;
  });
  same_value(got, bad.empty() ? want : bad, "parse_whole of '" + t + "'");
}

// ------------------------------------------------------------------ transforms
static string show(const vector<string> &s, const vector<int64_t> &i,
                   const vector<double> &d) {
  string r;
  for (auto &x : s)
    r += "'" + x + "',";
  for (auto x : i)
    r += pbt::fmt("%lld,", (long long)x);
  for (auto x : d)
    r += dbl(x) + ",";
  return r;
}
static string py_show(const py::object &o) {
  py::tuple t = o;
  vector<string> s;
  for (auto x : py::list(t[0]))
    s.push_back(py::bytes(py::reinterpret_borrow<py::object>(x)));
  return show(s, t[1].cast<vector<int64_t>>(), t[2].cast<vector<double>>());
}
static void p01_transforms() {
  pbt::label("transformations");
  bool is_it = chance(1, 2), one_by_one = chance(1, 2),
       title = !is_it && one_by_one && chance(1, 2), drop = chance(1, 2);
  vector<string> cards;
  size_t n = is_it ? draw(7) : pbt::sized(10);
  for (size_t i = 0; i < n; i++) {
    string c;
    if (is_it)
      c = i == 0   ? chance(1, 3) ? "some file name.k" : "f"
          : i == 1 ? kg::gen_fields({0, 0, 0, 0, 0, 0, 0})
          : i == 2 ? kg::gen_fields({0, 0, 1, 1})
          : i == 3 ? kg::gen_fields({0, 0, 0, 1, 0})
                   : kg::gen_fields({0});
    else if (title && i == 0)
      c = "A title";
    else if (i == (title ? 1 : 0))
      c = kg::gen_fields({0});
    else
      c = kg::gen_fields({1, 0, 0, 0, 0, 0, 0, 0});
    if (c.empty() || c[0] == '*' || c[0] == '$')
      c = "SCALE";
    cards.push_back(c);
  }
  string all;
  for (auto &c : cards)
    all += c + "\n";
  pbt::sample((is_it ? "INCLUDE_TRANSFORM\n" : "DEFINE_TRANSFORMATION\n") + all);
  vector<card_t> a;
  for (auto &c : cards)
    a.push_back({(char *)c.c_str(), 0, 0});
  keyword_t ka{(char *)"X", a.data(), a.size()};
  string file = pbt::dir() + "/t.k";
  pbt::write_file(file, "*X\n" + all);
  py::object ks = fn("k_parse")(text(file), false, true, false, py::list(), 0);
  py::object kw = ks[py::str("X")][py::int_(0)];
  if (is_it) {
    include_transform_t c = key_parse_include_transform(&ka);
    string want = show({c.file_name ? c.file_name : "", c.suffix ? c.suffix : "",
                        c.fcttem ? c.fcttem : ""},
                       {c.idnoff, c.ideoff, c.idpoff, c.idmoff, c.idsoff, c.idfoff,
                        c.iddoff, c.idroff, c.incout1, c.tranid},
                       {c.fctmas, c.fcttim, c.fctlen});
    key_free_include_transform(&c);
    string got = guarded("IncludeTransform", [&] {
      return py_show(fn("include_transform")(kw, one_by_one));
    });
    same_or_unshowable(got, want, "IncludeTransform");
    compared += 15;
  } else {
    define_transformation_t c = key_parse_define_transformation(&ka, title);
    vector<string> names;
    vector<double> pars;
    for (size_t i = 0; i < c.num_options; i++) {
      names.push_back(c.options[i].name ? c.options[i].name : "");
      for (double d : c.options[i].parameters)
        pars.push_back(d);
    }
    string want = show(names, {c.tranid}, pars);
    key_free_define_transformation(&c);
    string got = guarded("DefineTransformation", [&] {
      return py_show(fn("define_transformation")(kw, one_by_one, title, drop));
    });
    same_or_unshowable(got, want, "DefineTransformation");
    compared += 8 * names.size();
  }
}

// ------------------------------------------------------------------ arrays
// one value for an element of an array of the given kind (0: characters)
static py::object element_value(int k, bool bad) {
  static const int bits[] = {7, 8, 16, 32, 64, 8, 16, 32, 64, 24, 53};
  if (bad)
    switch (draw(k >= 9 || k == 0 ? 2 : 4)) {
    case 0:
      return py::none();
    case 1:
      return py::str("ab");
    case 2:
      return py::float_(1.5);
    default:
      return py::int_(1).attr("__lshift__")(70);
    }
  uint64_t b = pbt::bits64() >> draw(64);
  if (bits[k] < 64)
    b &= (1ull << bits[k]) - 1;
  if (k == 0 || ((k == 1 || k == 5) && chance(1, 2)))
    return py::str(string(1, (char)(chance(1, 2) ? 'a' + draw(3) : 1 + draw(127))));
  if (k <= 4)
    return py::int_((int64_t)(b << (64 - bits[k])) >> (64 - bits[k]));
  if (k <= 8)
    return py::int_(b);
  return py::float_((double)b * (chance(1, 2) ? -1 : 1) / 8);
}
static string element_text() {
  static const char *const wide[] = {"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x90\x89",
                                     "\xc2\x80"};
  string t;
  size_t n = pbt::weighted({1, 4, 2}) * draw(8);
  for (size_t i = 0; i < n; i++)
    if (chance(1, 12))
      t += wide[draw(4)];
    else
      t += (char)(chance(2, 3) ? 'a' + draw(3) : draw(128));
  return t;
}
// a text that has something in common with an earlier one
static string related_text(const vector<string> &before) {
  if (before.empty() || chance(1, 2))
    return element_text();
  string t = before[draw(before.size())];
  switch (draw(5)) {
  case 1: // a beginning of it
  case 2: {
    size_t n = draw(t.size() + 1);
    while (n < t.size() && ((unsigned char)t[n] & 0xC0) == 0x80)
      n++;
    return t.substr(0, n);
  }
  case 3:
    return t + string(1, '\0') + element_text();
  case 4:
    return t + element_text();
  }
  return t;
}

static py::list p02_steps(vector<int> &kinds) {
  py::list steps;
  size_t n = 1 + draw(14);
  int family = (int)pbt::weighted({3, 2, 2});
  vector<string> texts;
  for (size_t i = 0; i < n; i++)
    switch (kinds.empty() ? 0 : pbt::weighted({4, 5, 1, 2, 1, 1, 2})) {
    case 0: {
      int k = family == 0 || chance(1, 6) ? 0 : family == 1 ? (chance(1, 2) ? 1 : 5) : 1 + (int)draw(10);
      if (k) {
        size_t m = draw(9);
        steps.append(py::make_tuple("new", TYPES[k], "size", m));
      } else {
        const char *kind = chance(1, 2) ? "String" : "SizedString";
        string t = related_text(texts);
        texts.push_back(t);
        if (!strcmp(kind, "String")) // ends at a null character
          t = t.c_str();
        if (chance(1, 10)) {
          py::object bad = py::int_(3);
          if (chance(2, 3)) {
            py::list l;
            size_t m = draw(4);
            for (size_t j = 0; j < m; j++)
              l.append(py::str("a"));
            switch (draw(5)) {
            case 0:
              l.append(py::str("ab"));
              break;
            case 4:
              l.append(py::str("\xc3\xa4"));
              break;
            case 1:
              l.append(py::int_(7));
              break;
            case 2:
              l.append(py::str(""));
              break;
            default:
              l.append(py::none());
            }
            bad = chance(1, 2) ? py::object(l) : py::object(py::tuple(l));
          }
          steps.append(py::make_tuple("new", kind, "bad", bad));
          break;
        }
        bool ascii = true;
        for (char c : t)
          ascii = ascii && (unsigned char)c < 128;
        int how = ascii ? (int)draw(3) : 0;
        steps.append(py::make_tuple("new", kind, how == 1 ? "list" : how == 2 ? "tuple" : "str", t));
      }
      kinds.push_back(k);
      break;
    }
    case 1: {
      size_t at = draw(kinds.size());
      size_t index = chance(1, 8) ? 8 + draw(40) : draw(9);
      steps.append(py::make_tuple("set", at, index, element_value(kinds[at], false)));
      break;
    }
    case 2: {
      size_t at = draw(kinds.size()), index = draw(9);
      steps.append(py::make_tuple("setbad", at, index, element_value(kinds[at], true)));
      break;
    }
    case 3: {
      // objects of the same values
      size_t at = draw(kinds.size());
      py::list l;
      for (size_t j = 0, m = 1 + draw(3); j < m; j++)
        l.append(kinds[at] == 0 ? py::object(py::str(string(1, (char)('a' + draw(2)))))
                 : kinds[at] >= 9 ? py::object(py::float_((double)draw(2)))
                                  : py::object(py::int_(draw(2))));
      steps.append(py::make_tuple("fill", at, l));
      break;
    }
    case 4:
      steps.append(py::make_tuple("sort"));
      break;
    case 5: {
      size_t at = draw(kinds.size());
      steps.append(py::make_tuple("del", at));
      kinds.erase(kinds.begin() + (long)at);
      break;
    }
    default: {
      size_t a = draw(kinds.size()), b = draw(kinds.size());
      steps.append(py::make_tuple("pair", a, b));
    }
    }
  return steps;
}

static const bool started = (start_python(), true); // before processes are forked

PROPERTY(P01, 60000, 2400000,
         "random binout files, d3plot families (intact and damaged, missing "
         "files), trees of key files, cards and transformation keywords; "
         "the same random calls through the C functions and the Python module, "
         "also on objects whose parents are gone; non-trivial: at least 8 results "
         "compared") {
  REQUIRE(started, "no interpreter");
  compared = failing = 0;
  switch (pbt::weighted({4, 4, 2, 3, 1})) {
  case 0:
    p01_binout();
    break;
  case 1:
    p01_d3plot();
    break;
  case 2:
    p01_key_files();
    break;
  case 3:
    p01_cards();
    break;
  default:
    p01_transforms();
  }
  pbt::label_if(failing > 0, "some call fails");
  if (compared >= 8)
    pbt::nontrivial();
}

PROPERTY(P02, 24000, 1500000,
         "random histories of up to 14 steps on a pool of Python arrays of all "
         "number types, String and SizedString objects (created from a size, "
         "text, list or tuple, also refused ones; elements set, also to values "
         "that do not fit and behind the end; sorted; compared; released) "
         "against Python lists and bytes with the same contents; non-trivial: "
         "at least 10 comparisons of whole objects") {
  REQUIRE(started, "no interpreter");
  vector<int> kinds;
  py::list steps = p02_steps(kinds);
  string desc = py::str(steps);
  size_t count = 0;
  guarded(desc, [&] {
    count = fn("objects_history")(steps).cast<size_t>();
    return string();
  });
  pbt::sample(desc);
  bool strings = false, bytes = false, numbers = false;
  for (int k : kinds) {
    strings |= k == 0;
    bytes |= k == 1 || k == 5;
    numbers |= k && k != 1 && k != 5;
  }
  pbt::label_if(strings, "strings");
  pbt::label_if(bytes, "arrays of 8 bits");
  pbt::label_if(numbers, "other arrays");
  if (count >= 10)
    pbt::nontrivial();
}

PROPERTY(C04, 12000, 300000,
         "element results, their parts, connectivities and arrays of vectors read from random "
         "plots through the Python module, converted with str() or repr(); non-trivial: at "
         "least 3 objects are printed") {
  REQUIRE(started, "no interpreter");
  using namespace dops;
  Family f = gen_family(Limits{12, 5, 4, 4, false, 300}, pbt::dir(), WHOLE);
  py::object p = fn("d_open")(text(f.root));
  pbt::sample(describe(f));
  static const char *const cons[] = {"read_solid_elements", "read_thick_shell_elements",
                                     "read_beam_elements", "read_shell_elements"};
  static const char *const results[] = {
      "read_solids_state",      "read_thick_shells_state", "read_beams_state",
      "read_shells_state",      "read_node_coordinates",   "read_node_velocity",
      "read_node_acceleration"};
  size_t count = 0;
  auto print = [&](const char *what, int st) {
    string r = guarded(what, [&] {
      for (auto x : py::list(fn("d_print")(p, what, st))) {
        py::tuple t = py::reinterpret_borrow<py::tuple>(x);
        string got = py::str(t[0]), want = py::str(t[1]);
        auto plain = [](string s) { // the sign of NaN does not matter
          s = pt::tokens(s);
          for (size_t at; (at = s.find("-nan")) != string::npos;)
            s.erase(at, 1);
          return s;
        };
        REQUIRE(plain(got) == plain(want),
                "an element of %s is printed as\n  %.900s\nexpected\n  %.900s", what, got.c_str(),
                want.c_str());
        count++;
      }
      return string();
    });
    REQUIRE(r.empty(), "printing what %s gives: %s", what, r.c_str());
  };
  for (auto c : cons)
    print(c, -1);
  for (size_t s = 0; s < f.m.states.size() && s < 3; s++)
    for (auto r : results)
      if (chance(2, 3))
        print(r, (int)s);
  if (count >= 3)
    pbt::nontrivial();
}

// ------------------------------------------------------------------ lifetimes
// a key file with all kinds of objects that can be had from one
static string p03_key_file(const string &file) {
  string t;
  for (size_t i = 0, n = 1 + pbt::sized(6); i < n; i++) {
    switch (draw(3)) {
    case 0:
      t += "*DEFINE_TRANSFORMATION\n" + kg::gen_fields({0}) + "\n";
      for (size_t j = draw(5); j; j--)
        t += "SCALE     " + kg::gen_fields({1, 0, 0, 0, 0, 0, 0}) + "\n";
      break;
    case 1:
      t += "*NODE\n";
      for (size_t j = draw(6); j; j--)
        t += kg::gen_fields({0, 1, 1, 1}) + "\n";
      break;
    default:
      t += "*INCLUDE_TRANSFORM\nno such file " + std::to_string(draw(100)) + "\n";
      t += kg::gen_fields({0, 0, 0, 0, 0, 0, 0}) + "\n" + kg::gen_fields({0, 0, 1, 1}) + "\n" +
           kg::gen_fields({1, 1, 1, 0, 0}) + "\n" + kg::gen_fields({0}) + "\n";
    }
  }
  pbt::write_file(file, t);
  return t;
}

PROPERTY(P03, 20000, 900000,
         "histories of up to 47 steps on a pool of up to 12 Python objects: binouts, plots and key "
         "files opened, objects read from them and reached from other objects, iterated over, elements "
         "of results set to others, released in any order, garbage collected, and read again; non-trivial: at least five "
         "kinds of objects and ten objects read again") {
  REQUIRE(started, "no interpreter");
  py::list roots, paths, names;
  string desc;
  const int which = (int)pbt::weighted({2, 3, 2, 2});
  if (which == 0 || which == 3) {
    auto s = bo::gen_scene(bo::NONE, pbt::dir());
    roots.append(py::make_tuple("binout", text(s.pattern)));
    paths.append("/");
    for (size_t i = 0; i < 12 && i < s.vars.size(); i++) {
      string p = bo::spell(s.vars[i]);
      for (size_t k; draw(2) && (k = p.find("/d000001")) != string::npos;)
        p.erase(k, 8);
      if (utf8(p))
        paths.append(text(p));
    }
    desc += pbt::fmt("binout with %zu variables; ", s.vars.size());
  }
  if (which == 1 || which == 3) {
    using namespace dops;
    Family f = gen_family(Limits{12, 5, 4, 4, false, 300}, pbt::dir(), WHOLE);
    roots.append(py::make_tuple("d3plot", text(f.root)));
    desc += "d3plot " + describe(f) + "; ";
  }
  if (which >= 2) {
    string file = pbt::dir() + "/a.k";
    desc += "key file\n" + p03_key_file(file);
    roots.append(py::make_tuple("key", text(file)));
    for (const char *n : {"NODE", "DEFINE_TRANSFORMATION", "INCLUDE_TRANSFORM"})
      names.append(n);
  }
  pbt::sample(desc);
  size_t checks = 0;
  vector<string> kinds;
  auto number = py::cpp_function([](uint64_t n) { return draw(n); });
  string r = guarded("lifetimes", [&] {
    py::tuple t = fn("lifetimes")(roots, paths, names, number);
    checks = t[0].cast<size_t>();
    kinds = t[1].cast<vector<string>>();
    return string();
  });
  REQUIRE(r.empty() || r == "error: ?", "lifetimes: %s", r.c_str());
  for (auto &k : kinds)
    pbt::label(k.c_str());
  if (kinds.size() >= 5 && checks >= 10)
    pbt::nontrivial();
}

#include "key_gen.hpp"
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <fcntl.h>
using namespace kg;

static key_parse_config_t off() { // includes disabled
  key_parse_config_t c;
  memset(&c, 0, sizeof c);
  return c;
}

// ---------------------------------------------------------------------------------
PROPERTY(K01, 60000, 1500000,
         "random key file texts (comments, blank lines, line endings, line "
         "lengths around the buffer sizes, files around the reader's chunk "
         "size, text before the first keyword and after *END); non-trivial: at "
         "least 3 keywords, one of them with several cards") {
  string file = pbt::dir() + "/a.k";
  Text t = gen_text(14, file, true);
  pbt::write_file(file, t.text);
  vector<Kw> want = collect(t.events);
  pbt::label_if(t.big, "around a multiple of the chunk size");
  pbt::label_if(t.crlf, "carriage returns");
  pbt::label_if(t.has_end, "text after *END");
  pbt::label_if(t.prelude, "cards before the first keyword");
  pbt::label_if(t.long_lines, "lines of more than 80 columns");
  pbt::label_if(t.cardless, "keyword without cards");
  pbt::label_if(want.empty(), "nothing to report");
  size_t most = 0;
  bool dup = false;
  for (size_t i = 0; i < want.size(); i++) {
    most = std::max(most, want[i].cards.size());
    dup |= i && want[i].name == want[i - 1].name;
  }
  pbt::label_if(dup, "equal names");
  if (want.size() >= 3 && most >= 2)
    pbt::nontrivial();
  pbt::sample(pbt::fmt("%zu bytes, %zu keywords: %s", t.text.size(),
                       want.size(), show(t.text).c_str()));
  key_parse_config_t o = off();
  bool with = chance(1, 2);
  Parsed p = parse(file, with ? nullptr : &o);
  REQUIRE(!p.has_error, "error without a reason: %s", p.error.c_str());
  REQUIRE(!p.has_warning, "warning without a reason: %s", p.warning.c_str());
  same_keywords(p.kws, want);
  // the error and warning arguments are optional
  if (chance(1, 8)) {
    size_t n;
    keyword_t *k = key_file_parse(file.c_str(), &n, nullptr, nullptr, nullptr);
    REQUIRE(n == want.size(), "%zu keywords without error string, expected %zu",
            n, want.size());
    key_file_free(k, n);
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(K02, 80000, 2000000,
         "keyword multisets (from key files and as sorted arrays of exact size) "
         "with few distinct names, every name and index and names that do not "
         "occur; non-trivial: two names of which one occurs several times") {
  vector<string> names;
  keyword_t *k = nullptr;
  size_t n = 0;
  std::unique_ptr<keyword_t[]> own;
  vector<string> store;
  if (chance(1, 6)) {
    string file = pbt::dir() + "/a.k";
    Text t = gen_text(30, file, false);
    pbt::write_file(file, t.text);
    k = key_file_parse(file.c_str(), &n, nullptr, nullptr, nullptr);
    for (auto &w : collect(t.events))
      store.push_back(w.name);
    REQUIRE(n == store.size(), "%zu keywords, expected %zu", n, store.size());
    pbt::label("parsed");
  } else {
    Style st = gen_style();
    size_t kinds = 1 + draw(6);
    vector<string> pool;
    for (size_t i = 0; i < kinds; i++)
      pool.push_back(chance(1, 8) ? "" : gen_name(st));
    n = pbt::sized(40);
    size_t large = 0;
    if (chance(1, 150)) {
      pbt::label("hundreds to thousands of keywords");
      large = chance(1, 10) ? 65500 + draw(3000) : 256 + draw(chance(1, 5) ? 5000 : 500);
    }
    for (size_t i = 0; i < n; i++)
      store.push_back(pbt::pick(pool));
    if (large) { // blocks of equal names
      size_t at = 0;
      while (at < large) {
        size_t k = std::min(large - at, chance(1, 2) ? 1 + draw(5) : 1 + draw(large));
        string nm = chance(1, 2) ? pbt::pick(pool) : pbt::fmt("K%zu", draw(1000));
        store.insert(store.end(), k, nm);
        at += k;
      }
      n = store.size();
    }
    std::sort(store.begin(), store.end());
    own.reset(new keyword_t[n]);
    for (size_t i = 0; i < n; i++)
      own[i] = {(char *)store[i].c_str(), nullptr, 0};
    k = own.get();
    pbt::label("array");
  }
  std::map<string, vector<size_t>> where;
  for (size_t i = 0; i < n; i++)
    where[store[i]].push_back(i);
  vector<string> ask;
  for (auto &w : where)
    ask.push_back(w.first);
  size_t known = ask.size();
  for (size_t i = 0; i < known && i < 12; i++) {
    ask.push_back(ask[i] + "!");
    if (!ask[i].empty())
      ask.push_back(ask[i].substr(0, ask[i].size() - 1));
  }
  ask.push_back("");
  ask.push_back("\xff\xff");
  bool dup = false;
  for (auto &w : where)
    dup |= w.second.size() > 1;
  if (dup && where.size() > 1)
    pbt::nontrivial();
  pbt::sample(pbt::fmt("%zu keywords of %zu names", n, where.size()));
  for (auto &a : ask) {
    auto it = where.find(a);
    size_t c = it == where.end() ? 0 : it->second.size();
    vector<size_t> idx;
    for (size_t i = 0; i < c + 3; i++)
      if (c < 60 || i < 10 || i + 10 > c || (i >= 253 && i < 259) || i % 4001 == 0)
        idx.push_back(i);
    idx.push_back(n);
    idx.push_back(n + 1);
    idx.push_back((size_t)-1);
    idx.push_back((size_t)-1 - draw(n + 2));
    for (size_t i : idx) {
      keyword_t *g = key_file_get(k, n, a.c_str(), i);
      keyword_t *w = i < c ? k + it->second[i] : nullptr;
      REQUIRE(g == w,
              "looking up number %zd of %s (%zu of %zu keywords) gives %s %zd, "
              "expected %s %zd",
              (ssize_t)i, show(a).c_str(), c, n, g ? "keyword" : "nothing",
              g ? g - k : -1, w ? "keyword" : "nothing", w ? w - k : -1);
    }
    size_t ss = 777;
    keyword_t *s = key_file_get_slice(k, n, a.c_str(), &ss);
    REQUIRE(ss == c, "the slice of %s has %zu keywords, expected %zu",
            show(a).c_str(), ss, c);
    REQUIRE(s == (c ? k + it->second[0] : nullptr),
            "the slice of %s starts at %zd, expected %zd", show(a).c_str(),
            s ? s - k : -1, c ? (ssize_t)it->second[0] : -1);
  }
  if (!own)
    key_file_free(k, n);
}

// ---------------------------------------------------------------------------------
static void describe(const Tree &t, const Expected &e) {
  pbt::label_if(t.cfg.includes, "includes enabled");
  pbt::label_if(!t.cfg.includes, "includes disabled");
  pbt::label_if(t.multi_line, "file name over several lines");
  pbt::label_if(t.absolute, "absolute file name");
  pbt::label_if(t.paths, "include paths declared");
  pbt::label_if(!t.cfg.extra.empty(), "extra include paths");
  pbt::label_if(!e.missing.empty(), t.cfg.ignore ? "missing include, ignored"
                                                 : "missing include, error");
  pbt::label_if(!e.missing_paths.empty(), "missing include path");
  pbt::label_if(t.decoy, "same name in two folders");
  pbt::label_if(e.max_depth > 2, "nested includes");
  pbt::label_if(e.max_depth > 15, "deeply nested includes");
  string s = pbt::fmt("root %s, %zu files, %zu opened, depth %zu, %zu reports",
                      t.root_arg.substr(t.base.size() < t.root_arg.size() &&
                                                t.root_arg[0] == '/'
                                            ? t.base.size()
                                            : 0)
                          .c_str(),
                      t.files.size(), e.opened, e.max_depth, e.events.size());
  pbt::sample(s);
}

PROPERTY(K03, 25000, 600000,
         "random key file texts and include trees parsed with the callback "
         "parser (reports compared with the generator's record of lines) and "
         "the collecting parser; non-trivial: at least 5 reports") {
  if (chance(1, 2)) {
    string file = pbt::dir() + "/a.k";
    Text t = gen_text(14, file, true, 250, true);
    pbt::write_file(file, t.text);
    pbt::label("single file");
    pbt::label_if(t.cardless, "keyword without cards");
    pbt::label_if(t.big, "around a multiple of the chunk size");
    if (t.events.size() >= 5)
      pbt::nontrivial();
    pbt::sample(pbt::fmt("%zu reports", t.events.size()));
    Called c = call(file, nullptr);
    REQUIRE(!c.has_error && !c.has_warning, "error or warning: %s %s",
            c.error.c_str(), c.warning.c_str());
    same_events(c.ev, t.events, true);
    if (t.huge)
      return;
    Parsed p = parse(file, nullptr);
    same_keywords(p.kws, collect(c.ev));
    return;
  }
  Tree t = gen_tree(6, pbt::dir(), true);
  Cwd cd(t.cwd);
  Evaluator ev(t);
  describe(t, ev.e);
  if (ev.e.events.size() >= 5)
    pbt::nontrivial();
  CConfig cfg(t.cfg);
  Called c = call(t.root_arg, &cfg.c);
  same_events(c.ev, ev.e.events, true);
  for (auto &r : c.roots)
    REQUIRE(real(r) == real(ev.root_folder), "root folder %s, expected %s",
            r.c_str(), ev.root_folder.c_str());
  Parsed p = parse(t.root_arg, &cfg.c);
  REQUIRE(p.has_error == c.has_error, "the parsers disagree about an error");
  REQUIRE(p.error == c.error, "the parsers report different errors: %s / %s",
          p.error.c_str(), c.error.c_str());
  REQUIRE(p.warning == c.warning,
          "the parsers report different warnings: %s / %s", p.warning.c_str(),
          c.warning.c_str());
  if (!p.has_error)
    same_keywords(p.kws, collect(c.ev));
}

// ---------------------------------------------------------------------------------
PROPERTY(K04, 25000, 600000,
         "random trees of key files over several folders with include "
         "statements, include path statements and extra include paths, missing "
         "files and files of the same name; non-trivial: at least two files "
         "are parsed (or includes are disabled although there are some)") {
  Tree t = gen_tree(8, pbt::dir(), true);
  Cwd cd(t.cwd);
  Evaluator ev(t);
  describe(t, ev.e);
  if (ev.e.opened >= 2 || (!t.cfg.includes && t.num_includes))
    pbt::nontrivial();
  CConfig cfg(t.cfg);
  bool want_error = !ev.e.missing.empty() && !t.cfg.ignore;
  Called c = call(t.root_arg, &cfg.c);
  same_events(c.ev, ev.e.events, false);
  REQUIRE(c.has_error == want_error, "%s",
          c.has_error ? ("error without a missing file: " + c.error).c_str()
                      : "a missing include is no error");
  for (auto &m : ev.e.missing) {
    const string &msg = t.cfg.ignore ? c.warning : c.error;
    REQUIRE(msg.find("\"" + m + "\"") != string::npos,
            "missing include %s is not named in \"%s\"", m.c_str(),
            msg.c_str());
  }
  for (auto &m : ev.e.missing_paths)
    REQUIRE(c.warning.find(m) != string::npos,
            "missing include path %s is not named in \"%s\"", m.c_str(),
            c.warning.c_str());
  REQUIRE(c.has_warning ==
              (!ev.e.missing_paths.empty() ||
               (t.cfg.ignore && !ev.e.missing.empty())),
          "%s", c.has_warning ? ("warning without a reason: " + c.warning).c_str()
                              : "no warning for a missing file or path");
  Parsed p = parse(t.root_arg, &cfg.c);
  REQUIRE(p.has_error == want_error && p.has_warning == c.has_warning,
          "the collecting parser reports another error or warning");
  if (want_error)
    REQUIRE(p.null && p.kws.empty(), "keywords in spite of an error");
  else
    same_keywords(p.kws, collect(ev.e.events));
}

// --- cards -------------------------------------------------------------------------
// A card with an exactly sized string
struct C {
  std::unique_ptr<char[]> s;
  card_t c;
  explicit C(const string &t) : s(new char[t.size() + 1]) {
    memcpy(s.get(), t.c_str(), t.size() + 1);
    memset(&c, 0xa5, sizeof c);
    c.string = s.get();
  }
};

enum Class { BLANK, INT, FLOAT, LOOSE, OTHER, UNCLEAR };
// BLANK: only blanks. INT: [+-]digits. FLOAT: digits with fraction and/or
// exponent, digits on both sides of a point. LOOSE: a number with digits on one
// side of its point only. UNCLEAR: something follows after a blank.
struct Num {
  Class cls;
  string token;
  size_t digits = 0;
};
static Num read_number(const string &field) {
  size_t i = field.find_first_not_of(' ');
  if (i == string::npos)
    return {BLANK, ""};
  size_t e = field.find(' ', i);
  string t = field.substr(i, e == string::npos ? e : e - i);
  bool more = e != string::npos && field.find_first_not_of(' ', e) != string::npos;
  size_t p = 0, before = 0, after = 0, ex = 0;
  auto digits = [&](size_t &n) {
    while (p < t.size() && t[p] >= '0' && t[p] <= '9') {
      p++;
      n++;
    }
  };
  if (p < t.size() && (t[p] == '+' || t[p] == '-'))
    p++;
  digits(before);
  bool point = false, expo = false;
  if (p < t.size() && t[p] == '.') {
    point = true;
    p++;
    digits(after);
  }
  if (before + after && p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
    expo = true;
    p++;
    if (p < t.size() && (t[p] == '+' || t[p] == '-'))
      p++;
    digits(ex);
  }
  Num n{OTHER, t, before + after};
  bool ok = p == t.size() && before + after && (!expo || ex);
  if (ok)
    n.cls = !point && !expo ? INT
            : !point || (before && after) ? FLOAT
                                          : LOOSE;
  if (more)
    n.cls = UNCLEAR;
  return n;
}
static void check_double(double got, const Num &n, const char *what,
                         const string &field) {
  long double want = strtold(n.token.c_str(), nullptr);
  long double a = fabsl(want);
  size_t ep = n.token.find_first_of("eE");
  long double ex = ep == string::npos ? 0 : strtold(n.token.c_str() + ep + 1, nullptr);
  if ((a != 0 && (a > 1e290L || a < 1e-290L)) || fabsl(ex) > 290)
    return;
  long double tol = a * 2.3e-16L * (n.digits + 6);
  REQUIRE(fabsl(got - want) <= tol, "%s of %s gives %.17g, expected %.17Lg", what,
          show(field).c_str(), got, want);
}
static void check_float(float got, const Num &n, const char *what,
                        const string &field) {
  long double want = strtold(n.token.c_str(), nullptr);
  long double a = fabsl(want);
  REQUIRE(!std::isnan(got), "%s of %s is not a number", what,
          show(field).c_str());
  size_t ep = n.token.find_first_of("eE");
  long double ex = ep == string::npos ? 0 : strtold(n.token.c_str() + ep + 1, nullptr);
  if ((a != 0 && (a > 3.3e38L || a < 1.3e-38L)) || fabsl(ex) > 290)
    return;
  REQUIRE(fabsl(got - want) <= a * 1.3e-7L, "%s of %s gives %.9g, expected %.9Lg",
          what, show(field).c_str(), got, want);
}

static string gen_digits(size_t n) {
  string s;
  if (n > 30) {
    string p = gen_digits(1 + draw(5));
    while (s.size() < n)
      s += p;
    s.resize(n);
    return s;
  }
  for (size_t i = 0; i < n; i++)
    s += (char)('0' + draw(10));
  return s;
}
static string gen_number() {
  string s;
  s += chance(1, 3) ? (chance(1, 2) ? "-" : "+") : "";
  auto len = [] { return chance(1, 12) ? draw(90) : draw(8); };
  switch (draw(4)) {
  case 0:
    return s + gen_digits(1 + len());
  case 1:
    s += gen_digits(chance(1, 5) ? 0 : 1 + len()) + "." +
         gen_digits(chance(1, 5) ? 0 : 1 + len());
    break;
  case 2:
    s += gen_digits(1 + len());
    break;
  default:
    s += gen_digits(1 + draw(3)) + "." + gen_digits(1 + draw(4));
  }
  if (chance(1, 2)) {
    s += chance(1, 2) ? "e" : "E";
    s += chance(1, 2) ? (chance(1, 2) ? "-" : "+") : "";
    s += chance(1, 10) ? gen_digits(draw(12)) : pbt::fmt("%d", (int)draw(40));
    if (chance(1, 20))
      s += pbt::fmt("%d", (int)draw(3));
  }
  return s;
}
static string mutate(string s) {
  static const char junk[] = "+-.eE0 x\t,dD_";
  size_t k = 1 + draw(2);
  while (k--) {
    size_t p = draw(s.size() + 1);
    switch (draw(3)) {
    case 0:
      s.insert(p, 1, junk[draw(sizeof junk - 1)]);
      break;
    case 1:
      if (p < s.size())
        s.erase(p, 1);
      break;
    default:
      if (p < s.size())
        s[p] = junk[draw(sizeof junk - 1)];
    }
  }
  return s;
}

PROPERTY(K05, 200000, 8000000,
         "random number texts (integers, decimals, exponents, up to 90 digits, "
         "damaged ones) in fields of width 1 to 255 at any column of cards of "
         "up to 600 columns, neighbours of digits and signs; non-trivial: the "
         "field holds a number") {
  string text = gen_number();
  if (chance(1, 4))
    text = mutate(text);
  size_t width = chance(1, 6)   ? 10
                 : chance(1, 6) ? 1 + draw(255)
                                : std::min<size_t>(255, text.size() + draw(6));
  if (width == 0)
    width = 1;
  string field = string(std::min<size_t>(width, draw(5)), ' ') + text;
  if (chance(1, 6))
    field = string(width, ' ');
  bool ends = chance(1, 3);
  field = field.substr(0, width); // may cut the text
  if (!ends || chance(1, 2))
    field.resize(width, ' ');
  size_t before = chance(1, 8) ? 240 + draw(30) : draw(60);
  if (chance(1, 30))
    before = draw(600);
  static const char nb[] = "19-+.eE x";
  string card;
  char fill = nb[draw(sizeof nb - 1)];
  card.assign(before, fill);
  if (before)
    card[before - 1] = nb[draw(sizeof nb - 1)];
  card += field;
  if (field.size() == width && !ends) {
    size_t after = 1 + draw(8);
    for (size_t i = 0; i < after; i++)
      card += nb[draw(sizeof nb - 1)];
  }
  Num n = read_number(field);
  static const char *cn[] = {"blank", "integer", "decimal",
                             "point without digits on one side", "no number",
                             "text after a blank"};
  pbt::label(cn[n.cls]);
  pbt::label_if(before + width > 255, "columns after 255");
  pbt::label_if(n.digits > 38, "more than 38 digits");
  if (n.cls == INT || n.cls == FLOAT || n.cls == LOOSE)
    pbt::nontrivial();
  pbt::sample(pbt::fmt("field %s at column %zu", show(field).c_str(), before));
  C c(card);
  // move to the column
  card_parse_begin(&c.c, (uint8_t)width);
  size_t left = before;
  while (left) {
    size_t s = std::min<size_t>(left, 255);
    card_parse_next_width(&c.c, (uint8_t)s);
    left -= s;
  }
  bool direct = chance(1, 2);
  uint8_t w = (uint8_t)width;
  errno = 77;
  int64_t i64 = direct ? card_parse_int_width(&c.c, w) : card_parse_int(&c.c);
  int ie = errno;
  errno = 77;
  double f64 =
      direct ? card_parse_float64_width(&c.c, w) : card_parse_float64(&c.c);
  int de = errno;
  errno = 77;
  float f32 =
      direct ? card_parse_float32_width(&c.c, w) : card_parse_float32(&c.c);
  int fe = errno;
  card_parse_type ty =
      direct ? card_parse_get_type_width(&c.c, w) : card_parse_get_type(&c.c);
  int empty =
      direct ? card_parse_is_empty_width(&c.c, w) : card_parse_is_empty(&c.c);
  REQUIRE((empty != 0) == (n.cls == BLANK), "field %s is %s empty",
          show(field).c_str(), empty ? "said to be" : "not said to be");
  if (n.cls == UNCLEAR) {
    REQUIRE(f64 == f64 && f32 == f32, "not a number is returned for %s",
            show(field).c_str());
    return;
  }
  string fs = show(field);
  REQUIRE((ie == 0) == (n.cls == INT), "reading %s as int sets errno to %d",
          fs.c_str(), ie);
  bool number = n.cls == INT || n.cls == FLOAT || n.cls == LOOSE;
  // a result out of range may set ERANGE
  REQUIRE((de == 0 || de == ERANGE) == number,
          "reading %s as float64 sets errno to %d", fs.c_str(), de);
  REQUIRE((fe == 0 || fe == ERANGE) == number,
          "reading %s as float32 sets errno to %d", fs.c_str(), fe);
  card_parse_type want = n.cls == INT     ? CARD_PARSE_INT
                         : n.cls == FLOAT ? CARD_PARSE_FLOAT
                                          : CARD_PARSE_STRING;
  REQUIRE(ty == want, "the type of %s is %d, expected %d", fs.c_str(), (int)ty,
          (int)want);
  if (n.cls == INT && n.digits <= 18)
    REQUIRE(i64 == strtoll(n.token.c_str(), nullptr, 10),
            "reading %s as int gives %lld", fs.c_str(), (long long)i64);
  if (number) {
    check_double(f64, n, "float64", field);
    check_float(f32, n, "float32", field);
    REQUIRE(f64 == f64, "float64 of %s is not a number", fs.c_str());
    long double v = fabsl(strtold(n.token.c_str(), nullptr));
    size_t ep = n.token.find_first_of("eE");
    long double ex =
        ep == string::npos ? 0 : strtold(n.token.c_str() + ep + 1, nullptr);
    if (v > 1e-290L && v < 1e290L && fabsl(ex) <= 290)
      REQUIRE(de == 0 && fe == 0, "errno %d, %d for %s", de, fe, fs.c_str());
  }
}

// ---------------------------------------------------------------------------------
static string trim(const string &s) {
  size_t a = s.find_first_not_of(' ');
  if (a == string::npos)
    return "";
  return s.substr(a, s.find_last_not_of(' ') - a + 1);
}
static string own(char *p) {
  string s = p;
  free(p);
  return s;
}
PROPERTY(K06, 150000, 5000000,
         "random cards of 0 to some thousand columns and sequences of begin, "
         "next, next of a width and reads; oracle is substring arithmetic; "
         "non-trivial: at least three steps on a card of more than 20 columns") {
  Style st{0, 0, (unsigned)draw(4)};
  string t = gen_card(st);
  if (chance(1, 4))
    t.append(draw(20), ' ');
  if (chance(1, 5))
    t.insert(0, draw(20), ' ');
  C c(t);
  uint8_t w = (uint8_t)(chance(1, 2) ? 10 : chance(1, 2) ? 1 + draw(30) : draw(256));
  card_parse_begin(&c.c, w);
  size_t pos = 0, steps = draw(40);
  pbt::label_if(t.size() > 255, "more than 255 columns");
  pbt::label_if(t.empty(), "empty card");
  pbt::sample(pbt::fmt("%zu columns, width %u, %zu steps: %s", t.size(), w, steps,
                       show(t).c_str()));
  if (steps >= 3 && t.size() > 20)
    pbt::nontrivial();
  auto check = [&] {
    REQUIRE((card_parse_done(&c.c) != 0) == (pos == t.size()),
            "card of %zu columns at column %zu is %s to be done", t.size(), pos,
            pos == t.size() ? "not said" : "said");
  };
  check();
  bool full = chance(1, 3);
  if (full)
    steps = 100000;
  for (size_t i = 0; i < steps; i++) {
    if (full && (pos == t.size() || w == 0))
      break;
    uint8_t v = full ? w : (uint8_t)(chance(2, 3) ? draw(40) : draw(256));
    switch (full ? pbt::weighted({20, 0, 0, 1, 1}) : draw(6)) {
    case 0:
      card_parse_next(&c.c);
      pos = std::min(t.size(), pos + w);
      break;
    case 1:
      card_parse_next_width(&c.c, v);
      pos = std::min(t.size(), pos + v);
      break;
    case 2:
      if (chance(1, 3)) {
        w = v;
        card_parse_begin(&c.c, w);
        pos = 0;
      }
      break;
    case 3: {
      bool d = chance(1, 2);
      size_t fw = d ? v : w;
      string f = t.substr(pos, fw);
      string a = own(d ? card_parse_string_width(&c.c, v)
                       : card_parse_string(&c.c));
      REQUIRE(a == trim(f), "field at column %zu of width %zu is %s, expected %s",
              pos, fw, show(a).c_str(), show(trim(f)).c_str());
      string b = own(d ? card_parse_string_width_no_trim(&c.c, v)
                       : card_parse_string_no_trim(&c.c));
      REQUIRE(b == f,
              "untrimmed field at column %zu of width %zu is %s, expected %s",
              pos, fw, show(b).c_str(), show(f).c_str());
      bool e = d ? card_parse_is_empty_width(&c.c, v) != 0
                 : card_parse_is_empty(&c.c) != 0;
      REQUIRE(e == (trim(f) == ""), "field %s is %s empty", show(f).c_str(),
              e ? "said to be" : "not said to be");
      break;
    }
    case 4: {
      string a = own(card_parse_whole(&c.c));
      REQUIRE(a == trim(t), "the whole card is %s, expected %s", show(a).c_str(),
              show(trim(t)).c_str());
      string b = own(card_parse_whole_no_trim(&c.c));
      REQUIRE(b == t, "the whole untrimmed card is %s, expected %s",
              show(b).c_str(), show(t).c_str());
      break;
    }
    default:
      break;
    }
    check();
  }
  if (full && w) {
    REQUIRE(pos == t.size(), "internal");
    pbt::label("walked to the end");
  }
}

// ---------------------------------------------------------------------------------
static string field_of(const string &card, size_t i) {
  return i * 10 < card.size() ? card.substr(i * 10, 10) : "";
}
static bool number_of(const string &f, long double *v) {
  Num n = read_number(f);
  if (n.cls == INT || n.cls == FLOAT || n.cls == LOOSE) {
    *v = strtold(n.token.c_str(), nullptr);
    return true;
  }
  return false;
}
static void same_double(double got, long double want, const char *what) {
  REQUIRE(fabsl(got - want) <= fabsl(want) * 4e-15L, "%s is %.17g, expected %.17Lg",
          what, got, want);
}
static include_transform_t initial_it() {
  include_transform_t it;
  memset(&it, 0, sizeof it);
  it.fctmas = it.fcttim = it.fctlen = 1.0;
  return it;
}
struct CbIt {
  include_transform_t it;
  define_transformation_t dt;
  bool title;
};
static void cb_it(key_parse_info_t, const char *name, card_t *card, size_t idx,
                  void *u) {
  auto *c = (CbIt *)u;
  if (!card)
    return;
  if (!strcmp(name, "INCLUDE_TRANSFORM"))
    key_parse_include_transform_card(&c->it, card, idx);
  else if (!strncmp(name, "DEFINE_TRANSFORMATION", 21))
    key_parse_define_transformation_card(&c->dt, card, idx, c->title);
}
static void check_it(const include_transform_t &it, const vector<string> &cards,
                     const string &file_name) {
  auto card = [&](size_t i) { return i < cards.size() ? cards[i] : string(); };
  if (cards.empty())
    REQUIRE(!it.file_name, "file name without a card");
  else
    REQUIRE(it.file_name && it.file_name == file_name,
            "file name is %s, expected %s",
            it.file_name ? it.file_name : "(null)", file_name.c_str());
  const int64_t ints[] = {it.idnoff, it.ideoff, it.idpoff, it.idmoff,
                          it.idsoff, it.idfoff, it.iddoff};
  static const char *in[] = {"idnoff", "ideoff", "idpoff", "idmoff",
                             "idsoff", "idfoff", "iddoff"};
  auto integer = [&](int64_t got, const string &f, const char *what) {
    long double v = 0;
    number_of(f, &v);
    REQUIRE(got == (int64_t)v, "%s of %s is %lld", what, show(f).c_str(),
            (long long)got);
  };
  for (int i = 0; i < 7; i++)
    integer(ints[i], field_of(card(1), i), in[i]);
  integer(it.idroff, field_of(card(2), 0), "idroff");
  auto str = [&](const char *got, const string &c, size_t i, const char *what) {
    if (i * 10 < c.size())
      REQUIRE(got && got == trim(field_of(c, i)), "%s of %s is %s", what,
              show(field_of(c, i)).c_str(), got ? got : "(null)");
    else
      REQUIRE(!got || !*got, "%s is %s although the card ends before", what, got);
  };
  str(it.prefix, card(2), 2, "prefix");
  str(it.suffix, card(2), 3, "suffix");
  const double dbl[] = {it.fctmas, it.fcttim, it.fctlen};
  static const char *dn[] = {"fctmas", "fcttim", "fctlen"};
  for (int i = 0; i < 3; i++) {
    long double v = 1;
    number_of(field_of(card(3), i), &v);
    same_double(dbl[i], v, dn[i]);
  }
  str(it.fcttem, card(3), 3, "fcttem");
  integer(it.incout1, field_of(card(3), 4), "incout1");
  integer(it.tranid, field_of(card(4), 0), "tranid");
}
static void check_dt(const define_transformation_t &dt,
                     const vector<string> &cards, bool title) {
  size_t first = title ? 1 : 0;
  if (title && !cards.empty())
    REQUIRE(dt.title && dt.title == trim(cards[0]), "title is %s, expected %s",
            dt.title ? dt.title : "(null)", show(trim(cards[0])).c_str());
  else
    REQUIRE(!dt.title, "a title without a card for it");
  long double v = 0;
  if (cards.size() > first)
    number_of(field_of(cards[first], 0), &v);
  REQUIRE(dt.tranid == (int64_t)v, "tranid is %lld, expected %lld",
          (long long)dt.tranid, (long long)v);
  size_t n = cards.size() > first + 1 ? cards.size() - first - 1 : 0;
  REQUIRE(dt.num_options == n, "%zu options, expected %zu", dt.num_options, n);
  for (size_t i = 0; i < n; i++) {
    const string &c = cards[first + 1 + i];
    auto &o = dt.options[i];
    if (!c.empty())
      REQUIRE(o.name && trim(field_of(c, 0)) == o.name,
              "option %zu is %s, expected %s", i, o.name ? o.name : "(null)",
              trim(field_of(c, 0)).c_str());
    for (int k = 0; k < 7; k++) {
      long double p = 0;
      number_of(field_of(c, k + 1), &p);
      same_double(o.parameters[k], p,
                  pbt::fmt("parameter %d of option %zu (%s)", k, i,
                           show(c).c_str())
                      .c_str());
    }
  }
}
PROPERTY(K07, 60000, 1500000,
         "random INCLUDE_TRANSFORM and DEFINE_TRANSFORMATION(_TITLE) cards "
         "(fields with numbers, blanks or text at any place of their columns, "
         "cards that end early, missing and additional cards), decoded from "
         "exactly sized cards, from a parsed file and card by card in the "
         "callback; non-trivial: at least three cards") {
  bool is_it = chance(1, 2), title = !is_it && chance(1, 2);
  vector<string> cards;
  Writer w(Style{(unsigned)draw(3), (unsigned)draw(3) * 10, 0});
  w.noise();
  string kw = is_it ? "INCLUDE_TRANSFORM"
              : title ? "DEFINE_TRANSFORMATION_TITLE"
                      : "DEFINE_TRANSFORMATION";
  string file_name = chance(1, 2) ? "inc file.k"
                     : chance(1, 3)
                         ? "f"
                         : "d/" + string(draw(200), 'x') + ".k";
  if (is_it) {
    size_t n = chance(1, 2) ? 5 : draw(7);
    for (size_t i = 0; i < n; i++)
      switch (i) {
      case 0:
        cards.push_back(file_name);
        break;
      case 1:
        cards.push_back(gen_fields({0, 0, 0, 0, 0, 0, 0}));
        break;
      case 2:
        cards.push_back(gen_fields({0, 0, 1, 1}));
        break;
      case 3:
        cards.push_back(gen_fields({0, 0, 0, 1, 0}));
        break;
      default:
        cards.push_back(gen_fields({0}));
      }
  } else {
    size_t n = pbt::sized(12);
    for (size_t i = 0; i < n; i++)
      if (title && i == 0)
        cards.push_back(string(draw(4), ' ') + "My Title " +
                        string(draw(3), ' '));
      else if (i == (title ? 1u : 0u))
        cards.push_back(gen_fields({0, 1}));
      else
        cards.push_back(gen_fields({1, 0, 0, 0, 0, 0, 0, 0, 0}));
  }
  pbt::label(kw.c_str());
  if (cards.size() >= 3)
    pbt::nontrivial();
  bool early = false;
  for (auto &c : cards)
    early |= c.size() % 10 != 0;
  pbt::label_if(early, "card ends inside of a field");
  string text;
  for (auto &c : cards)
    text += show(c) + " ";
  pbt::sample(kw + ": " + text);
  // exactly sized cards
  {
    vector<std::unique_ptr<C>> cs;
    vector<card_t> raw;
    for (auto &c : cards) {
      cs.emplace_back(new C(c));
      raw.push_back(cs.back()->c);
    }
    keyword_t k{(char *)kw.c_str(), raw.empty() ? nullptr : raw.data(),
                raw.size()};
    if (is_it) {
      include_transform_t it = key_parse_include_transform(&k);
      check_it(it, cards, file_name);
      key_free_include_transform(&it);
    } else {
      define_transformation_t dt = key_parse_define_transformation(&k, title);
      check_dt(dt, cards, title);
      key_free_define_transformation(&dt);
    }
  }
  if (chance(1, 2))
    return;
  // from a file
  w.keyword(kw);
  for (size_t i = 0; i < cards.size(); i++) {
    w.noise();
    if (i == 0 && is_it)
      name_card(w, cards[i], nullptr);
    else if (cards[i].empty())
      w.line("");
    else
      w.line(w.with_comment(cards[i]));
  }
  // otherwise a last empty card without a newline would not be there
  w.line("*KEYWORD");
  w.finish();
  string file = pbt::dir() + "/a.k";
  pbt::write_file(file, w.out);
  pbt::label("from a file");
  key_parse_config_t o = off();
  size_t n;
  char *err, *warn;
  key_parse_config_t *cfg = chance(1, 2) ? nullptr : &o;
  keyword_t *ks = key_file_parse(file.c_str(), &n, cfg, &err, &warn);
  REQUIRE(ks && !err, "parsing fails: %s", err ? err : "");
  keyword_t *k = key_file_get(ks, n, kw.c_str(), 0);
  REQUIRE(k, "keyword is missing");
  if (is_it) {
    include_transform_t it = key_parse_include_transform(k);
    check_it(it, cards, file_name);
    key_free_include_transform(&it);
  } else {
    define_transformation_t dt = key_parse_define_transformation(k, title);
    check_dt(dt, cards, title);
    key_free_define_transformation(&dt);
  }
  key_file_free(ks, n);
  free(warn);
  CbIt u;
  u.it = initial_it();
  memset(&u.dt, 0, sizeof u.dt);
  u.title = title;
  key_file_parse_with_callback(file.c_str(), cb_it, cfg, nullptr, nullptr, &u,
                               nullptr);
  if (is_it)
    check_it(u.it, cards, file_name);
  else
    check_dt(u.dt, cards, title);
  key_free_include_transform(&u.it);
  key_free_define_transformation(&u.dt);
}

// ---------------------------------------------------------------------------------
static volatile uint64_t sink;
static void read_everything(card_t *c) {
  static const uint8_t fixed[] = {0, 1, 8, 10, 16, 20, 80, 255};
  size_t n = strlen(c->string);
  size_t k = n > 600 ? 1 : 3;
  for (size_t r = 0; r < k; r++) {
    uint8_t w = chance(1, 2) ? fixed[draw(8)] : (uint8_t)draw(256);
    card_parse_begin(c, w);
    size_t steps = 0;
    while (!card_parse_done(c) && steps++ <= n + 2) {
      uint8_t v = chance(1, 6) ? (uint8_t)draw(256) : w;
      sink += card_parse_int_width(c, v) + card_parse_get_type_width(c, v) +
              card_parse_is_empty_width(c, v);
      double d = card_parse_float64_width(c, v);
      float f = card_parse_float32_width(c, v);
      sink += d > 0 ? 1 : f > 0 ? 2 : 0;
      free(card_parse_string_width(c, v));
      free(card_parse_string_width_no_trim(c, v));
      if (steps == 1) {
        sink += card_parse_int(c) + card_parse_get_type(c) + card_parse_is_empty(c);
        free(card_parse_string(c));
        free(card_parse_string_no_trim(c));
      }
      if (v == 0)
        v = 1;
      card_parse_next_width(c, v);
    }
    if (w) {
      card_parse_begin(c, w);
      steps = 0;
      while (!card_parse_done(c)) {
        card_parse_next(c);
        REQUIRE(++steps <= n, "walking a card of %zu columns does not end", n);
      }
      card_parse_next(c);
      REQUIRE(card_parse_done(c), "walking past the end");
    }
    free(card_parse_whole(c));
    free(card_parse_whole_no_trim(c));
    std::unique_ptr<char[]> b(new char[n]);
    _card_cpy(c, b.get(), n);
  }
}
static void decode(keyword_t *k) {
  include_transform_t it = key_parse_include_transform(k);
  key_free_include_transform(&it);
  for (int t = 0; t < 2; t++) {
    define_transformation_t dt = key_parse_define_transformation(k, t);
    key_free_define_transformation(&dt);
  }
}
PROPERTY(K08, 30000, 800000,
         "damaged key files and include trees, token soups, cycles of includes; "
         "every card is read with every reader and random widths and every "
         "keyword is decoded as transformation; non-trivial: at least one card "
         "was read") {
  string base = pbt::dir();
  mkdirs(base + "/w/sub");
  string root = base + "/w/a.k";
  string kind;
  Config cfg;
  cfg.includes = !chance(1, 4);
  cfg.ignore = chance(1, 2);
  if (chance(1, 3))
    cfg.extra.push_back(chance(1, 3) ? string("") : chance(1, 2) ? "sub" : base);
  switch (pbt::weighted({5, 4, 2, 1})) {
  case 0: {
    kind = "token soup";
    pbt::write_file(root, wild_text());
    pbt::write_file(base + "/w/b.k", wild_text());
    break;
  }
  case 1: {
    kind = "damaged text";
    Text t = gen_text(10, root, true);
    string s = t.text;
    size_t k = 1 + draw(6);
    while (k-- && !s.empty()) {
      size_t p = draw(s.size());
      switch (draw(4)) {
      case 0:
        s[p] = (char)draw(256);
        break;
      case 1:
        s.erase(p, draw(20));
        break;
      case 2:
        s.insert(p, wild_text());
        break;
      default:
        s.resize(p);
      }
    }
    pbt::write_file(root, s);
    break;
  }
  case 2: {
    kind = "cycle";
    static const char *self[] = {"a.k", "./a.k", "sub/../a.k", "b.k", "sub/c.k"};
    auto inc = [&] {
      string s = "*INCLUDE\n";
      size_t k = 1 + draw(3);
      while (k--)
        s += string(self[draw(5)]) + "\n";
      if (chance(1, 3))
        s += "*NODE\n1\n";
      if (chance(1, 3))
        s += "*INCLUDE_PATH\nsub\n";
      return s;
    };
    pbt::write_file(root, inc());
    pbt::write_file(base + "/w/b.k", inc());
    pbt::write_file(base + "/w/sub/c.k", inc());
    break;
  }
  default: {
    kind = "paths";
    size_t len = chance(1, 2) ? 200 + draw(200) : 4000 + draw(300);
    string nm(len, 'n');
    if (chance(1, 2))
      for (size_t i = 100; i < len; i += 101)
        nm[i] = '/';
    string txt = chance(1, 3)   ? "*INCLUDE\n"
                 : chance(1, 2) ? "*INCLUDE_PATH\n"
                                : "*INCLUDE_PATH_RELATIVE\n";
    txt += nm + "\n*INCLUDE\n/\n.\n..\n/\n//\nsub\n" + base + "\n \n\n";
    pbt::write_file(root, txt);
    if (chance(1, 3))
      root = base + "/w/sub"; // a folder
    else if (chance(1, 6))
      root = nm;
    else if (chance(1, 6))
      root = "";
  }
  }
  pbt::label(kind.c_str());
  Cwd cd(base + "/w");
  CConfig cc(cfg);
  string arg = root;
  if (root == base + "/w/a.k" && chance(1, 2))
    arg = chance(1, 2) ? "a.k" : "./sub/..//a.k";
  size_t n;
  char *err = nullptr, *warn = nullptr;
  bool want_strings = chance(1, 2);
  const key_parse_config_t *cp = chance(1, 6) ? nullptr : &cc.c;
  keyword_t *k = key_file_parse(arg.c_str(), &n, cp,
                                want_strings ? &err : nullptr,
                                want_strings ? &warn : nullptr);
  size_t cards = 0;
  for (size_t i = 0; i < n; i++) {
    for (size_t j = 0; j < k[i].num_cards; j++)
      if (cards++ < 60)
        read_everything(&k[i].cards[j]);
    if (i < 40)
      decode(&k[i]);
  }
  if (cards)
    pbt::nontrivial();
  pbt::sample(pbt::fmt("%s: %zu keywords, %zu cards, error \"%.60s\"",
                       kind.c_str(), n, cards, err ? err : ""));
  pbt::label_if(err != nullptr, "error");
  pbt::label_if(!err && n == 0, "no keywords");
  free(err);
  free(warn);
  key_file_free(k, n);
  if (chance(1, 2)) {
    struct U {
      size_t n = 0;
    } u;
    key_file_parse_with_callback(
        arg.c_str(),
        [](key_parse_info_t, const char *, card_t *c, size_t, void *p) {
          auto *q = (U *)p;
          if (c && q->n++ < 20)
            read_everything(c);
        },
        cp, nullptr, nullptr, &u, nullptr);
  }
}

// Generator of key files (as text together with the reports they have to give)
// and of trees of key files that include each other.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <climits>
#include <map>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
extern "C" {
#include "include_transform.h"
#include "key.h"
}

namespace kg {
using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

// One report of the callback parser.
struct Event {
  string file; // as passed / resolved
  size_t line_lo, line_hi;
  string keyword;
  bool has_card;
  string card;
  size_t index;
};
struct Kw {
  string name;
  vector<string> cards;
};

inline vector<Kw> collect(const vector<Event> &ev) {
  vector<Kw> v;
  for (auto &e : ev) {
    if (!e.has_card || e.index == 0 || v.empty())
      v.push_back({e.keyword, {}});
    if (e.has_card)
      v.back().cards.push_back(e.card);
  }
  std::stable_sort(v.begin(), v.end(),
                   [](const Kw &a, const Kw &b) { return a.name < b.name; });
  return v;
}

// --- text -----------------------------------------------------------------------
struct Style {
  unsigned eol;      // 0 LF, 1 CRLF, 2 mixed
  unsigned noise;    // percent of comment lines
  unsigned longness; // how often lines exceed the usual 80 columns
};
inline Style gen_style() {
  Style s;
  s.eol = draw(3);
  s.noise = (unsigned)draw(4) * 10;
  s.longness = (unsigned)draw(4);
  return s;
}

inline string gen_bytes(size_t n, unsigned alphabet) {
  static const char *sets[] = {"0123456789 .-+", "ABCdef ghi_*&,+",
                               " \t\x80\xff\x01 x+\"'", "a"};
  const char *s = sets[alphabet];
  size_t k = strlen(s);
  string r(n, ' ');
  for (auto &c : r)
    c = s[draw(k)];
  return r;
}

inline size_t gen_length(const Style &st) {
  switch (pbt::weighted({6, 2, 1 + 2 * st.longness, st.longness, st.longness})) {
  case 0:
    return draw(12);
  case 1:
    return 70 + draw(16);
  case 2: {
    static const size_t edge[] = {78,  79,  80,  81,  82,  83,  84,  85,
                                  162, 163, 164, 165, 166, 245, 246, 247,
                                  254, 255, 256, 257, 326, 327, 328, 329};
    return edge[draw(sizeof edge / sizeof *edge)];
  }
  case 3:
    return draw(600);
  default:
    return chance(1, 8) ? 3000 + draw(3000) : draw(200);
  }
}

// The data of a card: anything that is neither a keyword nor holds a comment
inline string gen_card(const Style &st) {
  size_t n = gen_length(st);
  string s;
  if (n > 40) { // few draws for long lines: repeat a short pattern
    string pat = gen_bytes(1 + draw(11), (unsigned)draw(4));
    while (s.size() < n)
      s += pat;
    s.resize(n);
    if (chance(1, 2) && n)
      s[draw(n)] = (char)('A' + draw(26));
  } else
    s = gen_bytes(n, (unsigned)pbt::weighted({4, 4, 1, 1}));
  size_t i = s.find_first_not_of(' ');
  if (i != string::npos && s[i] == '*')
    s[i] = 'x';
  return s;
}

inline string gen_name(const Style &st) {
  static const char *pool[] = {"NODE",  "NODE_TITLE", "NOD",      "PART",
                               "A",     "END_X",      "ENDING",   "EN",
                               "INCLUD", "NINCLUDE",  "NODE_",    "node",
                               "KEYWORD", "ZZZ",      "end",      "NODES"};
  string n;
  switch (pbt::weighted({10, 2, 1, st.longness ? 2u : 0u})) {
  case 0:
    return pool[draw(sizeof pool / sizeof *pool)];
  case 1:
    n = pool[draw(sizeof pool / sizeof *pool)];
    n += (char)('A' + draw(26));
    break;
  case 2:
    n = string("\xc3\xa4\x80\xff").substr(draw(4), 1 + draw(2)) + "K";
    break;
  default: {
    size_t len = 74 + draw(20);
    if (chance(1, 3))
      len = 150 + draw(200);
    n = "L";
    while (n.size() < len)
      n += (char)('A' + (n.size() * 7) % 26);
    n.resize(len);
    if (chance(1, 2))
      n.back() = (char)('A' + draw(26));
  }
  }
  if (n == "END")
    n = "ENDE";
  if (n.compare(0, 7, "INCLUDE") == 0)
    n[0] = 'X';
  return n;
}

struct Writer {
  string out;
  size_t lines = 0;
  Style st;
  string last; // text of the last line
  explicit Writer(Style s) : st(s) {}
  size_t line(const string &s) {
    out += s;
    out += st.eol == 0   ? "\n"
           : st.eol == 1 ? "\r\n"
                         : (chance(1, 2) ? "\r\n" : "\n");
    last = s;
    return ++lines;
  }
  string comment() {
    string c = "$";
    c += gen_bytes(draw(6), (unsigned)draw(4));
    if (chance(1, 6))
      c += "*NODE $";
    if (chance(1, 10))
      c += string(60 + draw(120), '#');
    return c;
  }
  void noise() {
    while (st.noise && chance(st.noise, 100))
      line(comment());
  }
  string with_comment(const string &s) {
    return st.noise && chance(st.noise, 100) ? s + comment() : s;
  }
  // Comment lines such that the next line starts shortly before a multiple of
  // the reader's chunk size
  void fill(size_t chunk) {
    size_t target = (out.size() / chunk + 1) * chunk;
    size_t back = draw(200);
    if (target < back + out.size() + 4)
      return;
    size_t n = target - back - out.size();
    out += "$" + string(n - 2, 'f') + "\n";
    lines++;
    last = "$";
  }
  size_t keyword(const string &name) {
    string s = chance(1, 5) ? string(draw(chance(1, 5) ? 200 : 5), ' ') : "";
    s += "*" + name;
    if (chance(1, 4))
      s += string(draw(3) + 1, ' ');
    if (s.back() == ' ' && chance(1, 3))
      s += "junk *X " + string(draw(90), 'j');
    return line(with_comment(s));
  }
  void finish() {
    if (!last.empty() && chance(1, 3)) { // no newline at the end
      size_t n = out.size() - 1;         // the LF
      if (n && out[n - 1] == '\r' && chance(1, 2))
        n--;
      out.resize(n);
    }
  }
};

struct Text {
  bool huge = false;
  string text;
  vector<Event> events;
  bool big = false, crlf = false, has_end = false, prelude = false,
       long_lines = false, cardless = false;
};

// A key file without includes. max: number of keywords.
// More of something than one or two bytes can count, in 1 of scale cases;
// callback_only: also what the collecting parser takes too long for
inline Text gen_text(size_t max, const string &file, bool allow_big,
                     unsigned scale = 250, bool callback_only = false) {
  Text t;
  Style st = gen_style();
  Writer w(st);
  t.crlf = st.eol != 0;
  unsigned big = allow_big && chance(1, 30) ? 1 + (unsigned)draw(2) : 0;
  unsigned large = scale && chance(1, scale)
                       ? 1 + (unsigned)pbt::weighted({4, 4, 2, callback_only ? 2u : 0u})
                       : 0;
  size_t many = 256 + draw(chance(1, 6) ? 5000 : 400);
  auto cheap_cards = [&](const string &name, size_t n) {
    for (size_t i = 0; i < n; i++) {
      string c = pbt::fmt("%zu", i * 7919 % 1000);
      size_t l = w.line(c);
      t.events.push_back({file, l, l, name, true, c, i});
    }
  };
  auto make_large = [&] {
    switch (large) {
    case 1:
      pbt::label("more than 255 keywords");
      st.longness = 0;
      for (size_t i = 0; i < many; i++) {
        string name = i % 3 ? "A" : i % 2 ? "NODE" : pbt::fmt("P%zu", i * 7919 % 997);
        w.line("*" + name);
        cheap_cards(name, 1 + i % 2);
      }
      break;
    case 2:
      pbt::label("more than 255 cards");
      w.line("*MANY");
      cheap_cards("MANY", many);
      break;
    case 3: {
      pbt::label("more than 65535 lines");
      size_t n = 65530 + draw(4000);
      w.line("$first");
      for (size_t i = 0; i < n; i++)
        w.out += "$\n";
      w.lines += n;
      break;
    }
    case 4:
      pbt::label("more than 65535 cards");
      w.line("*MANY");
      cheap_cards("MANY", 65530 + draw(4000));
      t.huge = true;
      break;
    }
    large = 0;
  };
  auto cards = [&](const string &name, size_t n, size_t kwline) {
    size_t idx = 0;
    for (size_t i = 0; i < n; i++) {
      w.noise();
      if (big && chance(1, 3)) {
        w.fill(1 << 20);
        big--;
        t.big = true;
      }
      string c = gen_card(st);
      t.long_lines |= c.size() > 80;
      string raw = w.with_comment(c);
      if (!raw.empty() && raw[0] == '$') // would be a comment line
        continue;
      size_t l = w.line(raw);
      t.events.push_back({file, l, l, name, true, c, idx++});
    }
    if (idx == 0 && kwline) {
      t.events.push_back(
          {file, kwline, kwline, name, false, "", (size_t)~0ull});
      t.cardless = true;
    }
  };
  w.noise();
  if (chance(1, 6)) {
    size_t before = t.events.size();
    cards("", 1 + draw(3), 0);
    t.prelude = t.events.size() != before;
  }
  size_t n = pbt::sized(max);
  for (size_t i = 0; i < n; i++) {
    if (large && chance(1, 2))
      make_large();
    w.noise();
    if (big && chance(1, 4)) {
      w.fill(1 << 20);
      big--;
      t.big = true;
    }
    string name = gen_name(st);
    size_t l = w.keyword(name);
    t.long_lines |= name.size() > 80;
    cards(name, pbt::weighted({2, 4, 3, 1}) * (1 + draw(4)), l);
  }
  if (large)
    make_large();
  w.noise();
  if (chance(1, 4)) {
    w.line(string(draw(3), ' ') + "*END" + (chance(1, 4) ? " x" : ""));
    t.has_end = true;
    size_t k = draw(4);
    for (size_t i = 0; i < k; i++)
      w.line(chance(1, 2) ? "*NODE" : "ignored");
  }
  w.finish();
  t.text = w.out;
  if (chance(1, 60) && allow_big) { // a size that is a multiple of the chunk
    size_t m = 1 << 20;
    size_t pad = m - t.text.size() % m;
    if (pad > 2 && (t.text.empty() || t.text.back() == '\n')) {
      t.text += "$" + string(pad - 2, 'p') + (chance(1, 2) ? "\n" : "p");
      t.big = true;
    }
  }
  return t;
}

// --- running the library -----------------------------------------------------------
struct Parsed {
  vector<Kw> kws;
  bool null = false;
  bool has_error = false, has_warning = false;
  string error, warning;
};
inline string take(char *s, bool *has) {
  *has = s != nullptr;
  string r = s ? s : "";
  free(s);
  return r;
}
inline Parsed parse(const string &file, const key_parse_config_t *cfg) {
  Parsed p;
  size_t n = 12345;
  char *err = (char *)0x1, *warn = (char *)0x1;
  keyword_t *k = key_file_parse(file.c_str(), &n, cfg, &err, &warn);
  p.error = take(err, &p.has_error);
  p.warning = take(warn, &p.has_warning);
  p.null = !k;
  REQUIRE(k || n == 0, "no keywords returned, but their number is %zu", n);
  for (size_t i = 0; i < n; i++) {
    Kw w{k[i].name, {}};
    for (size_t j = 0; j < k[i].num_cards; j++)
      w.cards.push_back(k[i].cards[j].string);
    p.kws.push_back(w);
  }
  key_file_free(k, n);
  return p;
}
struct Recorder {
  vector<Event> ev;
  vector<string> roots;
  static void cb(key_parse_info_t info, const char *name, card_t *card,
                 size_t idx, void *u) {
    auto *r = (Recorder *)u;
    r->ev.push_back({info.file_name, info.line_number, info.line_number, name,
                     card != nullptr, card ? card->string : "", idx});
    r->roots.push_back(info.root_folder ? info.root_folder : "(null)");
  }
};
struct Called {
  vector<Event> ev;
  vector<string> roots;
  bool has_error, has_warning;
  string error, warning;
};
inline Called call(const string &file, const key_parse_config_t *cfg) {
  Recorder r;
  char *err = (char *)0x1, *warn = (char *)0x1;
  key_file_parse_with_callback(file.c_str(), Recorder::cb, cfg, &err, &warn, &r,
                               nullptr);
  Called c;
  c.error = take(err, &c.has_error);
  c.warning = take(warn, &c.has_warning);
  c.ev = r.ev;
  c.roots = r.roots;
  return c;
}

inline string show(const string &s) {
  string r;
  for (unsigned char c : s.substr(0, 60))
    r += c < 32 || c > 126 ? pbt::fmt("\\x%02x", c) : string(1, (char)c);
  if (s.size() > 60)
    r += pbt::fmt("...(%zu)", s.size());
  return "\"" + r + "\"";
}

inline string real(const string &p) {
  char *r = realpath(p.c_str(), nullptr);
  string s = r ? r : "(none)";
  free(r);
  return s;
}

inline void same_keywords(const vector<Kw> &got, const vector<Kw> &want) {
  size_t n = std::min(got.size(), want.size());
  for (size_t i = 0; i < n; i++) {
    REQUIRE(got[i].name == want[i].name, "keyword %zu is %s, expected %s", i,
            show(got[i].name).c_str(), show(want[i].name).c_str());
    size_t c = std::min(got[i].cards.size(), want[i].cards.size());
    for (size_t j = 0; j < c; j++)
      REQUIRE(got[i].cards[j] == want[i].cards[j],
              "card %zu of keyword %zu (%s) is %s, expected %s", j, i,
              show(got[i].name).c_str(), show(got[i].cards[j]).c_str(),
              show(want[i].cards[j]).c_str());
    REQUIRE(got[i].cards.size() == want[i].cards.size(),
            "keyword %zu (%s) has %zu cards, expected %zu", i,
            show(got[i].name).c_str(), got[i].cards.size(),
            want[i].cards.size());
  }
  REQUIRE(got.size() == want.size(), "%zu keywords, expected %zu", got.size(),
          want.size());
}

// Where: compare files and lines too.
inline void same_events(const vector<Event> &got, const vector<Event> &want,
                        bool where) {
  size_t n = std::min(got.size(), want.size());
  string last_got, last_got_real, last_want, last_want_real;
  for (size_t i = 0; i < n; i++) {
    auto &g = got[i];
    auto &w = want[i];
    REQUIRE(g.keyword == w.keyword, "report %zu is about keyword %s, expected %s",
            i, show(g.keyword).c_str(), show(w.keyword).c_str());
    REQUIRE(g.has_card == w.has_card, "report %zu (keyword %s) %s", i,
            show(g.keyword).c_str(),
            g.has_card ? "has a card, none expected" : "lacks its card");
    REQUIRE(!g.has_card || g.card == w.card,
            "report %zu (keyword %s) has card %s, expected %s", i,
            show(g.keyword).c_str(), show(g.card).c_str(),
            show(w.card).c_str());
    REQUIRE(g.index == w.index,
            "report %zu (keyword %s) has card index %zd, expected %zd", i,
            show(g.keyword).c_str(), (ssize_t)g.index, (ssize_t)w.index);
    if (where) {
      REQUIRE(g.line_lo >= w.line_lo && g.line_lo <= w.line_hi,
              "report %zu (keyword %s, card %s) gives line %zu, expected %zu", i,
              show(g.keyword).c_str(), show(g.card).c_str(), g.line_lo,
              w.line_lo);
      if (g.file != last_got)
        last_got_real = real(last_got = g.file);
      if (w.file != last_want)
        last_want_real = real(last_want = w.file);
      REQUIRE(last_got_real == last_want_real,
              "report %zu (keyword %s) names file %s, expected %s", i,
              show(g.keyword).c_str(), g.file.c_str(), w.file.c_str());
    }
  }
  REQUIRE(got.size() == want.size(), "%zu reports, expected %zu", got.size(),
          want.size());
}

// --- trees ------------------------------------------------------------------------
struct Card {
  size_t lo, hi;
  string text; // joined and trimmed where the format asks for it
};
struct Item {
  string keyword;
  size_t line;
  vector<Card> cards;
};
struct File {
  vector<Item> items;
};
struct Config {
  bool includes = true, ignore = false;
  vector<string> extra;
};
struct Tree {
  std::map<string, File> files; // by real path
  string base, cwd, root_arg, root_path;
  Config cfg;
  bool multi_line = false, absolute = false, paths = false, missing = false,
       decoy = false;
  size_t num_includes = 0;
};

struct Cwd {
  string old;
  explicit Cwd(const string &d) {
    char b[4096];
    old = getcwd(b, sizeof b) ? b : "/";
    if (chdir(d.c_str()) != 0)
      pbt::fail("chdir(%s) failed", d.c_str());
  }
  ~Cwd() {
    if (chdir(old.c_str()) != 0)
      abort();
  }
};

struct CConfig {
  vector<char *> v;
  key_parse_config_t c;
  explicit CConfig(const Config &k) {
    c = key_default_parse_config();
    c.parse_includes = k.includes;
    c.ignore_not_found_includes = k.ignore;
    for (auto &e : k.extra)
      v.push_back(strdup(e.c_str()));
    c.extra_include_paths = v.empty() ? nullptr : v.data();
    c.num_extra_include_paths = v.size();
  }
  ~CConfig() {
    for (auto p : v)
      free(p);
  }
};

inline bool all_cards_are_names(const string &k) {
  return k == "INCLUDE" || k == "INCLUDE_PATH" || k == "INCLUDE_PATH_RELATIVE";
}

// A file name as card over one or more lines
inline Card name_card(Writer &w, const string &name, Tree *t) {
  size_t pieces = chance(1, 3) ? 2 + draw(3) : 1;
  vector<string> p;
  string rest = name;
  while (pieces > 1 && rest.size() > 3) {
    size_t n = 1 + draw(rest.size() - 2);
    // neither a piece that starts with a blank (it would be trimmed if it were
    // the first one) nor one that looks like a keyword or a continuation
    if (rest[n] == ' ' || rest[n] == '*' || rest[n] == '+' ||
        rest[n - 1] == '+')
      break;
    p.push_back(rest.substr(0, n));
    rest = rest.substr(n);
    pieces--;
  }
  p.push_back(rest);
  if (p.size() > 1 && t)
    t->multi_line = true;
  Card c{0, 0, name};
  for (size_t i = 0; i < p.size(); i++) {
    string s = i == 0 && chance(1, 4) ? string(1 + draw(90), ' ') : "";
    s += p[i];
    if (i + 1 < p.size())
      s += " +";
    else if (chance(1, 4))
      s += string(1 + draw(90), ' ');
    size_t l = w.line(i + 1 < p.size() && chance(1, 2) ? s : w.with_comment(s));
    if (i == 0)
      c.lo = l;
    c.hi = l;
    if (i + 1 < p.size())
      w.noise();
  }
  return c;
}

inline void mkdirs(const string &p) {
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/')
      mkdir(p.substr(0, i).c_str(), 0755);
}

// max: number of files
inline Tree gen_tree(size_t max, const string &base, bool allow_disabled,
                     bool scale = true) {
  Tree t;
  t.base = base;
  t.cwd = base + "/w";
  // directories: working directory, below it, next to it, the root's folder
  vector<string> dirs = {base + "/w",      base + "/w/sub", base + "/ext one",
                         base + "/w/deep/er", base + "/root", base + "/far"};
  for (auto &d : dirs)
    mkdirs(d);
  auto spell = [&](const string &abs, const string &from) {
    // relative spelling of a directory or file below base
    string rel;
    if (abs.compare(0, from.size() + 1, from + "/") == 0)
      rel = abs.substr(from.size() + 1);
    else if (abs == from)
      rel = ".";
    else {
      // all our folders are at most two levels deep
      string up = from;
      string dots;
      while (abs.compare(0, up.size() + 1, up + "/") != 0) {
        up = up.substr(0, up.rfind('/'));
        dots += "../";
      }
      rel = dots + abs.substr(up.size() + 1);
    }
    return rel;
  };
  t.cfg.includes = !(allow_disabled && chance(1, 5));
  t.cfg.ignore = chance(1, 3);
  size_t ne = chance(1, 2) ? draw(4) : 0;
  for (size_t i = 0; i < ne; i++) {
    string d = dirs[draw(dirs.size())];
    t.cfg.extra.push_back((chance(1, 2) ? d : spell(d, t.cwd)) +
                          (chance(1, 4) ? "/" : ""));
  }
  if (chance(1, 12))
    t.cfg.extra.push_back(base + "/does not exist");

  if (scale && chance(1, 600)) { // all but the last say nothing new
    pbt::label("more than 255 extra include paths");
    t.cfg.extra.insert(t.cfg.extra.begin(), 256 + draw(100), base + "/ext one");
    t.cfg.extra.push_back(dirs[draw(dirs.size())]);
  }

  size_t n = 1 + pbt::sized(max - 1);
  bool chain = chance(1, 8);
  if (chain)
    n = std::max<size_t>(n, pbt::thorough() ? 40 + draw(120) : 10 + draw(30));
  vector<string> name(n), where(n);
  for (size_t i = 0; i < n; i++) {
    string nm;
    switch (draw(5)) {
    case 0:
      nm = "f.k";
      break;
    case 1:
      nm = "file name with  blanks + plus.key";
      break;
    case 2:
      nm = "n";
      break;
    case 3:
      nm = string(30 + draw(160), 'l') + ".k";
      break;
    default:
      nm = ".hidden";
    }
    // an include by "n" with one character is only possible for one file
    if (!(nm == "n" && i == n - 1))
      nm = pbt::fmt("%zu", i) + nm;
    if (chance(1, 3))
      nm = "sub/" + nm;
    name[i] = nm;
    where[i] = dirs[draw(dirs.size())];
    if (i == 0) {
      name[0] = "root.k";
      if (chance(1, 3))
        where[0] = t.cwd;
    }
  }
  auto path_of = [&](size_t i) { return where[i] + "/" + name[i]; };
  std::map<string, string> texts;
  for (size_t i = n; i-- > 0;) {
    Style st = gen_style();
    if (!chance(1, 4))
      st.longness = 0;
    Writer w(st);
    File f;
    size_t items = i + 1 == n ? draw(4) : 1 + draw(5);
    if (i == 0 && items == 0)
      items = 1;
    bool has_chain = false;
    for (size_t k = 0; k < items || (chain && !has_chain && i + 1 < n); k++) {
      w.noise();
      if (k && chance(1, 12) &&
          (all_cards_are_names(f.items.back().keyword) ||
           (f.items.back().keyword.compare(0, 8, "INCLUDE_") == 0 &&
            f.items.back().keyword != "INCLUDE_MULTISCALE_SPOTWELD" &&
            f.items.back().cards.empty()))) {
        // a name whose next line is missing: it names nothing
        w.line("name without end +");
        if (chance(1, 3))
          w.line("more of it +");
        w.noise();
        pbt::label("file name without its last line");
      }
      Item it;
      unsigned kind =
          (unsigned)pbt::weighted({3, i + 1 < n ? 6u : 0u, 2, 1, 1});
      if (chain && k >= items)
        kind = 1;
      if (kind == 0) {
        it.keyword = gen_name(st);
        it.line = w.keyword(it.keyword);
        size_t c = draw(4);
        if (scale && chance(1, 2000)) {
          pbt::label("more than 255 cards");
          for (size_t j = 0, m = 256 + draw(400); j < m; j++) {
            string s = pbt::fmt("%zu", j);
            size_t l = w.line(s);
            it.cards.push_back({l, l, s});
          }
        }
        for (size_t j = 0; j < c; j++) {
          w.noise();
          string s = gen_card(st);
          string raw = w.with_comment(s);
          if (!raw.empty() && raw[0] == '$')
            continue;
          size_t l = w.line(raw);
          it.cards.push_back({l, l, s});
        }
      } else if (kind == 1) {
        it.keyword = chance(2, 3) ? "INCLUDE"
                     : chance(1, 2) ? "INCLUDE_BINARY"
                                    : "INCLUDE_NASTRAN";
        it.line = w.keyword(it.keyword);
        size_t c = it.keyword == "INCLUDE" ? pbt::weighted({1, 8, 3, 1})
                                           : (chance(1, 8) ? 0 : 1);
        if (chain && k >= items && c == 0)
          c = 1;
        if (it.keyword == "INCLUDE" && scale && chance(1, 600)) {
          pbt::label("more than 255 include cards");
          for (size_t j = 0, m = 256 + draw(100); j < m; j++) {
            it.cards.push_back(name_card(w, name[n - 1], &t));
            t.num_includes++;
          }
          has_chain = true;
        }
        for (size_t j = 0; j < c; j++) {
          size_t target = chain ? i + 1 : i + 1 + draw(n - i - 1);
          has_chain = true;
          w.noise();
          string nm;
          if (chance(1, 12)) {
            nm = chance(1, 2) ? "missing file.k" : base + "/w/missing";
          } else if (chance(1, 3)) {
            nm = path_of(target);
            t.absolute = true;
          } else if (chance(1, 5))
            nm = spell(path_of(target), t.cwd);
          else
            nm = name[target];
          it.cards.push_back(name_card(w, nm, &t));
          t.num_includes++;
        }
        if (it.keyword == "INCLUDE_NASTRAN" && c && chance(1, 3)) {
          size_t l = w.line("        20        20        20");
          it.cards.push_back({l, l, ""});
        }
      } else if (kind == 2) {
        it.keyword =
            chance(1, 2) ? "INCLUDE_PATH" : "INCLUDE_PATH_RELATIVE";
        it.line = w.keyword(it.keyword);
        size_t c = pbt::weighted({1, 6, 2});
        if (scale && chance(1, 600)) {
          pbt::label("more than 255 include path cards");
          string a = it.keyword == "INCLUDE_PATH" ? "sub" : spell(dirs[2], where[0]);
          for (size_t j = 0, m = 256 + draw(100); j < m; j++)
            it.cards.push_back(name_card(w, a, &t));
          t.paths = true;
        }
        for (size_t j = 0; j < c; j++) {
          w.noise();
          string d = dirs[draw(dirs.size())];
          string s;
          if (it.keyword == "INCLUDE_PATH")
            s = chance(1, 2) ? d : spell(d, t.cwd);
          else
            s = spell(d, where[0]);
          if (chance(1, 10))
            s += "/nope";
          if (chance(1, 8))
            s += "/";
          it.cards.push_back(name_card(w, s, &t));
          t.paths = true;
        }
      } else if (kind == 3) {
        static const char *other[] = {"INCLUDE_TRANSFORM", "INCLUDE_STAMPED_PART",
                                      "INCLUDE_COMPENSATION_NEW_RIGID_TOOL"};
        it.keyword = other[draw(3)];
        it.line = w.keyword(it.keyword);
        size_t c = draw(4);
        for (size_t j = 0; j < c; j++) {
          w.noise();
          if (j == 0)
            it.cards.push_back(name_card(w, "some file name.k", &t));
          else {
            string s = "         1   x +";
            size_t l = w.line(s);
            it.cards.push_back({l, l, s});
          }
        }
      } else {
        it.keyword = "INCLUDE_MULTISCALE_SPOTWELD";
        it.line = w.keyword(it.keyword);
        size_t c = draw(3);
        for (size_t j = 0; j < c; j++) {
          string s = "   1 not a name +";
          size_t l = w.line(s);
          it.cards.push_back({l, l, s});
        }
      }
      f.items.push_back(it);
    }
    w.noise();
    if (chance(1, 5)) {
      w.line("*END");
      w.line("*AFTER_END");
    }
    w.finish();
    string p = path_of(i);
    mkdirs(p.substr(0, p.rfind('/')));
    pbt::write_file(p, w.out);
    t.files[real(p)] = f;
    // the same name somewhere else
    if (i != 0 && chance(1, 4)) {
      string q = dirs[draw(dirs.size())] + "/" + name[i];
      if (q != p) {
        mkdirs(q.substr(0, q.rfind('/')));
        string txt = "*DECOY\n" + pbt::fmt("%zu", i) + "\n";
        pbt::write_file(q, txt);
        File d;
        d.items.push_back({"DECOY", 1, {{2, 2, pbt::fmt("%zu", i)}}});
        t.files[real(q)] = d;
        t.decoy = true;
      }
    }
  }
  if (chance(1, 6)) // a folder with the name of a file
    mkdirs(base + "/w/missing file.k");
  t.root_path = path_of(0);
  string rel = spell(t.root_path, t.cwd);
  t.root_arg = chance(1, 2) ? t.root_path : chance(1, 4) ? "./" + rel : rel;
  return t;
}

struct Expected {
  vector<Event> events;
  vector<string> missing;       // names
  vector<string> missing_paths; // names
  size_t max_depth = 0, opened = 0;
};
struct Evaluator {
  const Tree &t;
  vector<string> search;
  string root_folder;
  Expected e;
  explicit Evaluator(const Tree &tr) : t(tr) {
    search.push_back(t.cwd);
    for (auto &x : t.cfg.extra)
      search.push_back(x);
    root_folder = t.root_path.substr(0, t.root_path.rfind('/'));
    run(t.root_path, 1);
  }
  static bool is(const string &p, int mode) {
    struct stat s;
    return stat(p.c_str(), &s) == 0 && (int)(s.st_mode & S_IFMT) == mode;
  }
  void run(const string &path, size_t depth) {
    e.max_depth = std::max(e.max_depth, depth);
    if (++e.opened > 400)
      pbt::discard();
    auto &f = t.files.at(real(path));
    for (auto &it : f.items) {
      const string &k = it.keyword;
      auto report = [&](size_t j) {
        e.events.push_back({path, it.cards[j].lo, it.cards[j].hi, k, true,
                            it.cards[j].text, j});
      };
      if (it.cards.empty()) {
        e.events.push_back(
            {path, it.line, it.line, k, false, "", (size_t)~0ull});
        continue;
      }
      for (size_t j = 0; j < it.cards.size(); j++) {
        const string &nm = it.cards[j].text;
        if (!t.cfg.includes) {
          if (k == "INCLUDE_NASTRAN" && j == 1)
            e.events.push_back({path, it.cards[j].lo, it.cards[j].hi, k, true,
                                "        20        20        20", j});
          else
            report(j);
          continue;
        }
        if (k == "INCLUDE" ||
            ((k == "INCLUDE_BINARY" || k == "INCLUDE_NASTRAN") && j == 0)) {
          string found;
          if (nm[0] == '/' && is(nm, S_IFREG))
            found = nm;
          for (size_t s = 0; found.empty() && s < search.size(); s++)
            if (is(search[s] + "/" + nm, S_IFREG))
              found = search[s] + "/" + nm;
          if (found.empty())
            e.missing.push_back(nm);
          else
            run(found, depth + 1);
        } else if (k == "INCLUDE_NASTRAN") {
        } else if (k == "INCLUDE_PATH") {
          if (is(nm, S_IFDIR))
            search.push_back(nm);
          else
            e.missing_paths.push_back(nm);
        } else if (k == "INCLUDE_PATH_RELATIVE") {
          if (is(root_folder + "/" + nm, S_IFDIR))
            search.push_back(root_folder + "/" + nm);
          else
            e.missing_paths.push_back(nm);
        } else
          report(j);
      }
    }
  }
};

// --- transformation cards ---------------------------------------------------------
// Fields of ten columns; the card may end anywhere
struct Field {
  string text; // ten columns or less
};
inline string gen_field(bool text) {
  string s;
  if (chance(1, 6))
    s = "";
  else if (text) {
    static const char *p[] = {"FtoC", "KtoC", "pre", "a b", "TRANSL", "x",
                              "ROTATE", "0123456789", "SCALE", "1.5"};
    s = p[draw(10)];
  } else if (chance(1, 12))
    s = "abc";
  else {
    switch (draw(6)) {
    case 0:
      s = pbt::fmt("%d", (int)draw(1000000));
      break;
    case 1:
      s = pbt::fmt("%d", -(int)draw(1000000));
      break;
    case 2:
      s = pbt::fmt("%.3f", (double)pbt::range(-99999, 99999) / 1000);
      break;
    case 3:
      s = pbt::fmt("%de%d", (int)pbt::range(-99, 99), (int)pbt::range(-5, 5));
      break;
    case 4:
      s = pbt::fmt("+%d.", (int)draw(999));
      break;
    default:
      s = pbt::fmt(".%d", (int)draw(999));
    }
  }
  s = s.substr(0, 10);
  size_t lead = draw(2) ? 10 - s.size() : draw(10 - s.size() + 1);
  s = string(lead, ' ') + s;
  s.resize(10, ' ');
  return s;
}
inline string gen_fields(std::initializer_list<bool> kinds) {
  string c;
  for (bool k : kinds)
    c += gen_field(k);
  if (chance(1, 3))
    c.resize(draw(c.size() + 1)); // ends early
  else if (chance(1, 3))
    c.resize(c.find_last_not_of(' ') == string::npos ? 0
                                                     : c.find_last_not_of(' ') + 1);
  return c;
}

// tokens of key files in any order
inline string wild_text() {
  static const char *tok[] = {"*",  "\n",  "\r\n", " +\n", "+", "$", " ",
                              "*INCLUDE\n", "*INCLUDE_PATH\n",
                              "*INCLUDE_PATH_RELATIVE\n", "*INCLUDE_BINARY\n",
                              "*INCLUDE_NASTRAN\n", "*INCLUDE_TRANSFORM\n",
                              "*INCLUDE_MULTISCALE\n", "*END", "*NODE\n", "a",
                              "a.k", "..", "/", "./a.k\n", "*INCLUDE", "1", ".",
                              "e", "-", "1e99999999999", "\t", "b.k\n",
                              "99999999999999999999"};
  string s;
  size_t n = pbt::sized(60);
  for (size_t i = 0; i < n; i++)
    switch (pbt::weighted({10, 2, 1, 1, 1})) {
    case 0:
      s += tok[draw(sizeof tok / sizeof *tok)];
      break;
    case 1:
      s += string(1 + draw(chance(1, 4) ? 400 : 90), " a+*$1\r"[draw(7)]);
      break;
    case 2:
      s += (char)draw(256);
      break;
    case 3:
      s += string(chance(1, 10) ? 5000 : 80 + draw(6), 'p');
      break;
    default:
      s += gen_bytes(draw(20), (unsigned)draw(4));
    }
  return s;
}

} // namespace kg

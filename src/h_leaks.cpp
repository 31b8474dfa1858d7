// M01: after all results and handles are released, no memory and no open file
// of the library is left: whatever the files contain, whichever calls fail.
#include "binout_ops.hpp"
#include "io_faults.hpp"
#include "key_gen.hpp"
#include "cpp/include_transform.hpp"
#include "cpp/key.hpp"
#include "cpp_api.hpp"
#include "d3_ops.hpp"
#include <functional>
#include <include_transform.h>
#include <memory>
#include <optional>

using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

namespace {
unsigned long done, failing;
// the C library keeps the name of the time zone
int zone = [] {
  setenv("TZ", "UTC", 1);
  tzset();
  return 0;
}();
void outcome(bool failed) {
  done++;
  failing += failed;
}
void check(const string &what, const io::Plan &plan,
           const std::function<void()> &f) {
  auto l = pbt::leaks_of([&] {
    io::During d(plan);
    f();
  });
  REQUIRE(l.blocks <= 0, "%ld blocks of memory are left after everything of %s has "
                         "been released%s",
          l.blocks, what.c_str(), l.where.c_str());
  REQUIRE(l.fds <= 0, "%ld files are still open after everything of %s has been "
                      "released",
          l.fds, what.c_str());
}

io::Plan gen_faults() {
  io::Plan p;
  if (!chance(1, 3))
    return p;
  pbt::label("file operations fail");
  p.from = pbt::sized(150);
  p.to = chance(1, 4) ? ~(size_t)0 : p.from + 1 + draw(4);
  if (chance(1, 2))
    p.kinds = 1u << draw(4);
  return p;
}

// ------------------------------------------------------------------ binout
void m_binout() {
  auto s = bo::gen_scene(chance(1, 3) ? bo::NONE : bo::SOME, pbt::dir());
  string pattern = s.pattern;
  if (chance(1, 4) && !s.names.empty())
    pattern = s.names[draw(s.names.size())];
  else if (chance(1, 30))
    pattern += "nothing";
  size_t n = 1 + pbt::sized(30);
  vector<bo::Op> ops;
  vector<bool> other;
  for (size_t i = 0; i < n; i++) {
    ops.push_back(bo::gen_op(s));
    if (ops.back().path.empty())
      ops.back().path = "/";
    if (chance(1, 12))
      ops.back().path += chance(1, 2) ? "/" + string(draw(600), 'y')
                                      : string(draw(3), '/');
    other.push_back(chance(1, 3));
  }
  io::Plan plan = gen_faults();
  bool two = chance(1, 3), cpp = chance(1, 2), walk = chance(1, 4);
  string desc = cpp ? "Binout: " : "binout: ";
  for (size_t i = 0; i < n && i < 6; i++)
    desc += bo::show_op(ops[i]) + "; ";
  pbt::sample(desc);
  pbt::label(cpp ? "Binout" : "binout");
  pbt::label_if(s.damaged, "damaged");
  if (!cpp) {
    check(desc, plan, [&] {
      std::unique_ptr<ba::Handle> h, h2;
      {
        h.reset(new ba::Handle(pattern));
        outcome(!h->open_error().empty());
      }
      if (two)
        h2.reset(new ba::Handle(pattern));
      for (size_t i = 0; i < n; i++) {
        string r = bo::do_op(two && other[i] ? h2->p() : h->p(), ops[i]);
        outcome(r.find("error:") != string::npos);
      }
      if (walk) {
        vector<string> all;
        bo::walk(h->p(), "/", 0, all);
        for (size_t i = 0; i < all.size() && i < 40; i++) {
          int t = binout_get_type_id(h->p(), all[i].c_str());
          if (t > 0 && t < 11)
            ba::read(h->p(), all[i], t);
        }
      }
    });
    return;
  }
  check(desc, plan, [&] {
    std::optional<dro::Binout> b;
    try {
      b.emplace(pattern);
      outcome(false);
    } catch (const dro::Binout::Exception &) {
      outcome(true);
      return;
    }
    for (size_t i = 0; i < n; i++) {
      auto &o = ops[i];
      try {
        switch (o.kind) {
        case 0:
        case 1:
          outcome(xa::read(*b, o.path, o.type, o.kind == 1).compare(0, 6, "error:") ==
                  0);
          continue;
        case 2:
          (void)b->get_type_id(o.path);
          break;
        case 3:
          (void)b->variable_exists(o.path);
          break;
        case 4:
          (void)b->get_children(o.path);
          break;
        case 5:
          (void)b->get_num_timesteps(o.path);
          break;
        default: {
          dro::BinoutType t = dro::BinoutType::Invalid;
          bool timed = false;
          (void)b->simple_path_to_real(o.path, t, timed);
        }
        }
        outcome(false);
      } catch (const dro::Binout::Exception &) {
        outcome(true);
      }
    }
    if (two) {
      dro::Binout c(std::move(*b));
      (void)c.get_children("/");
    }
  });
}

// ------------------------------------------------------------------ d3plot
void m_d3plot() {
  using namespace dops;
  auto st = (Style)pbt::weighted({1, 1, 2});
  Family f = gen_family(Limits{10, 5, 5, 4}, pbt::dir(), st);
  string root = f.root;
  if (chance(1, 30))
    root += "nothing";
  size_t n = 1 + pbt::sized(30);
  vector<Call> calls;
  for (size_t i = 0; i < n; i++)
    calls.push_back(da::gen_call(f.m, (int)draw(da::NUM_OPS)));
  io::Plan plan = gen_faults();
  bool cpp = chance(1, 2), half = chance(1, 3);
  string desc = describe(f) + (cpp ? " D3plot: " : " d3plot: ");
  for (size_t i = 0; i < n && i < 6; i++)
    desc += da::text_of(calls[i]) + "; ";
  pbt::sample(desc);
  pbt::label(cpp ? "D3plot" : "d3plot");
  pbt::label_if(st != WHOLE, "damaged");
  if (!cpp) {
    check(desc, plan, [&] {
      std::unique_ptr<da::Handle> h;
      {
        h.reset(new da::Handle(root));
      }
      outcome(!h->ok());
      if (!h->ok())
        return;
      for (size_t i = 0; i < n; i++) {
        outcome(da::call(h->p(), calls[i], i % 2 || !half).err);
      }
    });
    return;
  }
  check(desc, plan, [&] {
    std::optional<dro::D3plot> p;
    try {
      p.emplace(root);
      outcome(false);
    } catch (const dro::D3plot::Exception &) {
      outcome(true);
      return;
    }
    for (size_t i = 0; i < n; i++) {
      if (calls[i].op == da::EPOCH || calls[i].op == da::RUN_TIME)
        continue; // a time point can not hold every run time
      outcome(xa::call(*p, calls[i]).err);
    }
    if (half)
      dro::D3plot other(std::move(*p));
  });
}

// ------------------------------------------------------------------ key files
// damage that keeps most of the file readable
string mutated(string s) {
  size_t n = 1 + pbt::sized(5);
  for (size_t i = 0; i < n; i++) {
    size_t at = draw(s.size() + 1);
    switch (draw(7)) {
    case 0:
      s.insert(at, 1, (char)draw(256));
      break;
    case 1:
      if (at < s.size())
        s[at] = (char)draw(256);
      break;
    case 2:
      s.erase(at, 1 + draw(8));
      break;
    case 3:
      s.resize(at);
      break;
    case 4: {
      static const char *w[] = {"*INCLUDE\n",           "*INCLUDE_PATH\n",
                                "*INCLUDE_PATH_RELATIVE\n", "*INCLUDE_TRANSFORM\n",
                                " +\n",                 "$",
                                "\n*\n",                "*END\n",
                                "*INCLUDE_BINARY\n",    "*INCLUDE_NASTRAN\n",
                                "\r\n"};
      s.insert(at, w[draw(sizeof w / sizeof *w)]);
      break;
    }
    case 5: {
      size_t k = s.find("*INCLUDE");
      if (k != string::npos)
        s.insert(k, s.substr(k, 60));
      break;
    }
    default:
      s.insert(at, draw(300), chance(1, 2) ? ' ' : 'x');
    }
  }
  return s;
}
struct Stop {};
void count_cb(key_parse_info_t, const char *, card_t *, size_t, void *u) {
  ++*(size_t *)u;
}
void m_key() {
  string file, cwd = pbt::dir(), root;
  kg::Config cfg;
  vector<string> files;
  if (chance(1, 5)) {
    pbt::label("token soup");
    file = root = pbt::dir() + "/root.k";
    for (const char *n : {"/root.k", "/b.k"})
      pbt::write_file(pbt::dir() + n, kg::wild_text());
    string s = pbt::read_file(pbt::dir() + "/b.k");
    if (s.find("*INCLUDE") != string::npos)
      pbt::write_file(pbt::dir() + "/b.k", "*NODE\n1\n");
    cfg.includes = !chance(1, 4);
    cfg.ignore = chance(1, 2);
    files = {root};
  } else if (chance(1, 3)) {
    file = root = pbt::dir() + "/a.k";
    auto t = kg::gen_text(14, file, false, 0);
    pbt::write_file(file, t.text);
    files.push_back(file);
    if (chance(1, 12))
      file += "x"; // does not exist
  } else {
    auto t = kg::gen_tree(6, pbt::dir(), true, false);
    file = t.root_arg;
    cwd = t.cwd;
    cfg = t.cfg;
    for (auto &x : t.files)
      files.push_back(x.first);
    kg::Cwd there(cwd);
    kg::Evaluator few(t); // discards trees of very many includes
  }
  bool damaged = chance(1, 2);
  if (damaged)
    for (auto &p : files)
      if (chance(1, 2)) {
        string s = mutated(pbt::read_file(p));
        // includes in a row include the same files many times
        size_t k = 0, c = 0;
        while ((k = s.find("*INCLUDE", k)) != string::npos)
          k++, c++;
        if (c < 8)
          pbt::write_file(p, s);
      }
  bool cpp = chance(1, 2), ask = chance(1, 2), no_config = chance(1, 6);
  size_t stop = chance(1, 3) ? draw(20) : (size_t)-1;
  io::Plan plan = gen_faults();
  string desc = (cpp ? "KeyFile: " : "key file: ") + file +
                pbt::fmt(" of %zu files%s", files.size(), damaged ? ", damaged" : "");
  pbt::sample(desc);
  pbt::label(cpp ? "KeyFile" : "key file");
  pbt::label_if(damaged, "damaged");
  kg::Cwd cd(cwd);
  if (!cpp) {
    check(desc, plan, [&] {
      kg::CConfig cc(cfg);
      char *err = nullptr, *warn = nullptr;
      size_t n = 0, k = 0;
      {
        keyword_t *kw = key_file_parse(file.c_str(), &n, no_config ? nullptr : &cc.c,
                                       ask ? &err : nullptr, ask ? &warn : nullptr);
        outcome(!kw);
        for (size_t i = 0; i < n; i++) {
          size_t sn;
          (void)key_file_get_slice(kw, n, kw[i].name, &sn);
          (void)key_file_get(kw, n, kw[i].name, i % 3);
          for (bool title : {false, true}) {
            define_transformation_t d = key_parse_define_transformation(&kw[i], title);
            key_free_define_transformation(&d);
          }
          include_transform_t t = key_parse_include_transform(&kw[i]);
          key_free_include_transform(&t);
        }
        key_file_free(kw, n);
        free(err);
        free(warn);
      }
      err = warn = nullptr;
      key_file_parse_with_callback(file.c_str(), count_cb,
                                   no_config ? nullptr : &cc.c,
                                   ask ? &err : nullptr, ask ? &warn : nullptr, &k,
                                   nullptr);
      outcome(err != nullptr);
      free(err);
      free(warn);
    });
    return;
  }
  check(desc, plan, [&] {
    vector<fs::path> extra(cfg.extra.begin(), cfg.extra.end());
    dro::KeyFile::ParseConfig conf(cfg.includes, cfg.ignore, extra);
    std::optional<dro::String> w;
    try {
      dro::Keywords ks = no_config
                             ? dro::KeyFile::parse(file)
                             : dro::KeyFile::parse(file, conf, ask ? &w : nullptr);
      vector<string> names;
      for (auto &k : ks)
        names.push_back(k.name);
      names.push_back("NO_SUCH_KEYWORD");
      for (auto &name : names) {
        try {
          auto sl = ks[name];
          for (size_t i = 0; i < sl.size() + 1; i++) {
            auto k = sl[i];
            dro::IncludeTransform t(k);
            dro::DefineTransformation d(k), d2(k, true);
            (void)d.get_options();
            (void)d2.get_title();
          }
        } catch (const std::exception &) {
        }
      }
      dro::Keywords moved(std::move(ks));
      outcome(false);
    } catch (const dro::KeyFile::Exception &) {
      outcome(true);
    }
    size_t k = 0;
    try {
      dro::KeyFile::parse_with_callback(
          file,
          [&](dro::KeyFile::ParseInfo, dro::String, std::optional<dro::Card> card,
              size_t) {
            if (k++ == stop)
              throw Stop();
            if (card)
              (void)card->parse_string_whole<dro::String>();
          },
          conf, ask ? &w : nullptr);
      outcome(false);
    } catch (const dro::KeyFile::Exception &) {
      outcome(true);
    } catch (const Stop &) {
      outcome(true);
    }
  });
}

// ------------------------------------------------------------------ cards
template <class T> void value(const dro::Card &c, uint8_t w) {
  try {
    T v = c.parse<T>(w);
    if constexpr (std::is_same_v<T, char *>)
      free(v);
    outcome(false);
  } catch (const dro::KeyFile::Exception &) {
    outcome(true);
  }
}
void m_cards() {
  vector<string> cards;
  size_t n = draw(7);
  for (size_t i = 0; i < n; i++)
    cards.push_back(chance(1, 2)
                        ? kg::gen_fields({1, 0, 0, 1, 0, 0, 0, 0})
                        : kg::gen_card(kg::gen_style()).substr(0, 200));
  vector<int> ws;
  for (size_t i = 0; i < 4; i++)
    ws.push_back(1 + (int)draw(40));
  bool title = chance(1, 2);
  string all;
  for (auto &c : cards)
    all += c + "\n";
  pbt::sample("cards:\n" + all);
  pbt::label("cards");
  check("cards", io::Plan(), [&] {
    vector<card_t> a, b;
    for (auto &c : cards)
      a.push_back({(char *)c.c_str(), 0, 0});
    b = a;
    keyword_t ka{(char *)"X", a.data(), a.size()};
    include_transform_t it = key_parse_include_transform(&ka);
    key_free_include_transform(&it);
    define_transformation_t dt = key_parse_define_transformation(&ka, title);
    key_free_define_transformation(&dt);
    {
      dro::IncludeTransform x;
      dro::DefineTransformation y;
      for (size_t i = 0; i < n; i++) {
        x.parse_include_transform_card(dro::Card(&b[i]), i);
        y.parse_define_transformation_card(dro::Card(&b[i]), i, title);
      }
      try {
        (void)y.get_title();
      } catch (const dro::KeyFile::Exception &) {
      }
      dro::DefineTransformation z(std::move(y));
      (void)z.get_options();
    }
    for (auto &c : a) {
      int k = 0;
      dro::Card x(&c);
      for (x.begin(); !x.done() && k < 12; k++) {
        int w = ws[k % 4];
        free(card_parse_string(&c));
        free(card_parse_string_no_trim(&c));
        free(card_parse_string_width(&c, (uint8_t)w));
        free(card_parse_string_width_no_trim(&c, (uint8_t)w));
        free(card_parse_whole(&c));
        free(card_parse_whole_no_trim(&c));
        value<int8_t>(x, (uint8_t)w);
        value<uint64_t>(x, (uint8_t)w);
        value<float>(x, (uint8_t)w);
        value<double>(x, (uint8_t)w);
        value<dro::String>(x, (uint8_t)w);
        value<dro::SizedString>(x, (uint8_t)w);
        value<char *>(x, (uint8_t)w);
        (void)x.parse_string_no_trim<dro::SizedString>((uint8_t)w);
        x.next((uint8_t)w);
      }
      try {
        (void)x.parse_whole<string, int, dro::String, double, dro::SizedString>();
        outcome(false);
      } catch (const dro::KeyFile::Exception &) {
        outcome(true);
      }
    }
  });
}
} // namespace

PROPERTY(M01, 40000, 1500000,
         "random binouts, d3plot families, trees of key files and cards, most of "
         "them damaged, opened, used with random calls and released through the C "
         "functions and the C++ classes; in a third of the cases some opening, "
         "reading or positioning of a file fails; counted are the blocks of "
         "memory and the file descriptors left; non-trivial: at least 3 calls "
         "or a failing one") {
  done = failing = 0;
  switch (pbt::weighted({5, 5, 4, 1})) {
  case 0:
    m_binout();
    break;
  case 1:
    m_d3plot();
    break;
  case 2:
    m_key();
    break;
  default:
    m_cards();
  }
  pbt::label_if(failing > 0, "some call fails");
  if (done >= 3 || failing)
    pbt::nontrivial();
}

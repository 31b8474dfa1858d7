// C02: the C++ arrays, strings, state objects and handles as values. Random
// histories of constructions, copies, moves, assignments and accesses are run
// against a model of the contents; every live object is checked after every
// step, ASan watches the ownership and all memory and files have to be released
// at the end.
#include "cpp_api.hpp"
#include "key_gen.hpp"
#include "cpp/key.hpp"
#include "cpp/include_transform.hpp"
#include <memory>
#include <numeric>
#include <optional>
#include <sstream>

using pbt::chance;
using pbt::draw;
using std::shared_ptr;
using std::string;
using std::vector;
using u64 = uint64_t;

namespace {
// ------------------------------------------------------------------ programs
enum What {
  MAKE,
  DESTROY,
  COPY,
  MOVE,
  COPY_ASSIGN,
  MOVE_ASSIGN,
  SELF_COPY,
  SELF_MOVE,
  SWAP,
  VECTOR,
  MUTATE,
  COMPARE,
  RETURN,
  NUM_WHAT
};
const char *what_name[] = {"make",      "destroy",     "copy",      "move",
                           "copy=",     "move=",       "self copy=", "self move=",
                           "swap",      "vector",      "change",    "compare",
                           "return"};
struct Step {
  int what;
  unsigned a, b;
  u64 r;
};
constexpr unsigned SLOTS = 4;
unsigned long copies, moves, others;

// releases what handles opened before the history hold
void end_of_history();
u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
// no temporary object
template <class T> T &same_object(T &x) { return x; }

template <class K> struct Arena {
  using T = typename K::T;
  using M = typename K::Model;
  struct Slot {
    std::optional<T> v;
    bool moved = false; // valid, but without defined contents
    shared_ptr<M> m;
  };
  Slot s[SLOTS];
  static shared_ptr<M> copied(const shared_ptr<M> &m) {
    return m ? std::make_shared<M>(K::copy(*m)) : nullptr;
  }
  void check_all(const string &after) {
    for (unsigned i = 0; i < SLOTS; i++)
      if (s[i].v && !s[i].moved)
        K::check(*s[i].v, *s[i].m,
                 pbt::fmt("after %s: object %u", after.c_str(), i));
  }
  static T give(T t) { return t; }
  void step(const Step &p) {
    Slot &a = s[p.a], &b = s[p.b];
    others++;
    switch (p.what) {
    case MAKE: {
      auto m = std::make_shared<M>();
      if constexpr (std::is_move_assignable_v<T>) {
        if (a.v)
          *a.v = K::make(p.r, *m);
        else
          a.v.emplace(K::make(p.r, *m));
      } else {
        a.v.reset();
        a.v.emplace(K::make(p.r, *m));
      }
      a.m = m;
      a.moved = false;
      break;
    }
    case DESTROY:
      a.v.reset();
      a.m.reset();
      break;
    case COPY:
      if constexpr (std::is_copy_constructible_v<T>) {
        if (!a.v || p.a == p.b)
          break;
        b.v.reset();
        b.v.emplace((const T &)*a.v);
        b.m = copied(a.m);
        b.moved = a.moved;
        copies++;
      }
      break;
    case MOVE:
      if (!a.v || p.a == p.b)
        break;
      b.v.reset();
      b.v.emplace(std::move(*a.v));
      b.m = a.m;
      b.moved = a.moved;
      a.moved = true;
      moves++;
      break;
    case COPY_ASSIGN:
      if constexpr (std::is_copy_assignable_v<T>) {
        if (!a.v || !b.v || p.a == p.b)
          break;
        *b.v = (const T &)*a.v;
        b.m = copied(a.m);
        b.moved = a.moved;
        copies++;
      }
      break;
    case MOVE_ASSIGN:
      if constexpr (std::is_move_assignable_v<T>) {
        if (!a.v || !b.v || p.a == p.b)
          break;
        *b.v = std::move(*a.v);
        b.m = a.m;
        b.moved = a.moved;
        a.moved = true;
        moves++;
      }
      break;
    case SELF_COPY:
      if constexpr (std::is_copy_assignable_v<T>) {
        if (!a.v)
          break;
        *a.v = same_object(*a.v);
        a.m = copied(a.m);
        copies++;
      }
      break;
    case SELF_MOVE:
      if constexpr (std::is_move_assignable_v<T> && K::self_move) {
        if (!a.v)
          break;
        *a.v = std::move(same_object(*a.v));
        moves++;
      }
      break;
    case SWAP:
      if constexpr (std::is_move_assignable_v<T>) {
        if (!a.v || !b.v || p.a == p.b)
          break;
        std::swap(*a.v, *b.v);
        std::swap(a.m, b.m);
        std::swap(a.moved, b.moved);
        moves++;
      }
      break;
    case VECTOR: {
      vector<T> v;
      vector<shared_ptr<M>> m;
      for (unsigned i = 0; i < 2 + p.r % 5; i++) {
        bool from_slot = false;
        if constexpr (std::is_copy_constructible_v<T>)
          if (mix(p.r + i) % 2 && a.v && !a.moved) {
            v.push_back((const T &)*a.v);
            m.push_back(copied(a.m));
            from_slot = true;
          }
        if (!from_slot) {
          m.push_back(std::make_shared<M>());
          v.push_back(K::make(mix(p.r + 17 * i), *m.back()));
        }
        for (size_t k = 0; k < v.size(); k++)
          K::check(v[k], *m[k], pbt::fmt("element %zu of a growing vector", k));
      }
      if constexpr (std::is_move_assignable_v<T>) {
        size_t k = mix(p.r) % v.size();
        v.erase(v.begin() + k);
        m.erase(m.begin() + k);
        for (k = 0; k < v.size(); k++)
          K::check(v[k], *m[k], pbt::fmt("element %zu of a shrunk vector", k));
      }
      if constexpr (std::is_copy_constructible_v<T>) {
        vector<T> w = v;
        for (auto &x : m)
          x = copied(x);
        v.clear();
        for (size_t k = 0; k < w.size(); k++)
          K::check(w[k], *m[k], pbt::fmt("element %zu of a copied vector", k));
        copies++;
      }
      break;
    }
    case MUTATE:
      if (a.v && !a.moved)
        K::change(*a.v, *a.m, p.r);
      break;
    case COMPARE:
      if constexpr (K::has_eq)
        if (a.v && b.v && !a.moved && !b.moved) {
          bool want = K::equal(*a.m, *b.m);
          const T &x = *a.v, &y = *b.v;
          REQUIRE((x == y) == want, "objects %u and %u compare %s, contents are %s",
                  p.a, p.b, want ? "unequal" : "equal", want ? "equal" : "unequal");
        }
      break;
    case RETURN:
      if (!a.v)
        break;
      if constexpr (std::is_copy_constructible_v<T>) {
        b.v.reset();
        if (p.a != p.b) {
          b.v.emplace(give((const T &)*a.v));
          b.m = copied(a.m);
          b.moved = a.moved;
        }
        copies++;
      }
      break;
    }
  }
};

template <class K> void run(const char *name) {
  pbt::label(name);
  vector<Step> prog;
  size_t n = 10 + draw(pbt::thorough() ? 120 : 50);
  for (size_t i = 0; i < n; i++) {
    static const unsigned char kinds[] = {MAKE, MAKE, MAKE, DESTROY, COPY, COPY,
                                          MOVE, COPY_ASSIGN, COPY_ASSIGN,
                                          MOVE_ASSIGN, SELF_COPY, SELF_MOVE,
                                          SWAP, VECTOR, MUTATE, MUTATE, MUTATE,
                                          COMPARE, COMPARE, RETURN};
    Step s;
    s.what = i < 3 ? MAKE : kinds[draw(sizeof kinds)];
    s.a = i < 3 ? i : draw(SLOTS);
    s.b = draw(SLOTS);
    s.r = draw(1u << 30);
    prog.push_back(s);
  }
  string desc = string(name) + ":";
  for (size_t i = 0; i < n && i < 12; i++)
    desc += pbt::fmt(" %s(%u,%u)", what_name[prog[i].what], prog[i].a, prog[i].b);
  pbt::sample(desc);
  copies = moves = others = 0;
  auto body = [&] {
    Arena<K> a;
    for (size_t i = 0; i < n; i++) {
      a.step(prog[i]);
      a.check_all(pbt::fmt("step %zu (%s %u %u)", i, what_name[prog[i].what],
                           prog[i].a, prog[i].b));
    }
    end_of_history();
  };
  auto l = pbt::leaks_of(body);
  REQUIRE(l.blocks <= 0, "%ld blocks are not released after the history%s",
          l.blocks, l.where.c_str());
  REQUIRE(l.fds <= 0, "%ld files are not closed after the history", l.fds);
  if (copies + moves >= 3)
    pbt::nontrivial();
}

template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::runtime_error &e) {
    return *e.what() != 0;
  }
  return false;
}

// ------------------------------------------------------------------ arrays
template <class E> struct Values {
  vector<E> want;
  shared_ptr<vector<E>> storage; // of an array that does not own its data
};
template <class E> E value_of(u64 r) {
  if constexpr (std::is_same_v<E, dro::dVec3>)
    return {(double)(r % 7), (double)(r % 11), (double)(r % 3)};
  else
    return (E)(mix(r) % 5);
}
template <class E> string stream_of(const vector<E> &v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) {
    if (i)
      o << ", ";
    if constexpr (sizeof(E) == 1)
      o << "'" << (char)v[i] << "'";
    else
      o << v[i];
  }
  o << "]";
  return o.str();
}
template <class A, class E>
void check_elements(A &v, const vector<E> &w, const string &at) {
  const A &c = v;
  REQUIRE(v.size() == w.size(), "%s has size %zu instead of %zu", at.c_str(),
          v.size(), w.size());
  REQUIRE(v.empty() == w.empty(), "%s of size %zu is%s empty", at.c_str(),
          w.size(), v.empty() ? "" : " not");
  for (size_t i = 0; i < w.size(); i++)
    REQUIRE(v[i] == w[i] && c[i] == w[i] && v.data()[i] == w[i] &&
                &v[i] == v.data() + i && &c[i] == c.data() + i,
            "%s: element %zu differs", at.c_str(), i);
  size_t k = 0;
  for (auto &x : v) {
    REQUIRE(k < w.size() && x == w[k], "%s: element %zu differs while iterating",
            at.c_str(), k);
    k++;
  }
  REQUIRE(k == w.size(), "%s: iterating gives %zu elements", at.c_str(), k);
  k = 0;
  auto it = c.begin();
  for (; it != c.end(); it++) {
    REQUIRE(k < w.size() && *it == w[k] && it - c.begin() == (ptrdiff_t)k &&
                it.operator->() == c.data() + k,
            "%s: constant iteration differs at %zu", at.c_str(), k);
    k++;
  }
  REQUIRE(k == w.size() && it == c.end() && (size_t)(c.end() - c.begin()) == k,
          "%s: constant iteration gives %zu elements", at.c_str(), k);
  for (size_t bad : {w.size(), w.size() + 1, (size_t)-1, (size_t)1 << 63,
                     (size_t)1 << 61}) {
    REQUIRE(throws([&] { (void)v[bad]; }), "%s: element %zd of %zu can be accessed",
            at.c_str(), (ssize_t)bad, w.size());
    REQUIRE(throws([&] { (void)c[bad]; }),
            "%s: constant element %zd of %zu can be accessed", at.c_str(),
            (ssize_t)bad, w.size());
  }
}
// a: comparison with texts, for all classes that hold text
template <class A> void check_text(const A &a, const string &w, const string &at) {
  REQUIRE(a.str() == w, "%s is the text '%s' instead of '%s'", at.c_str(),
          a.str().c_str(), w.c_str());
  for (const string &o :
       {w, w + "x", w.substr(0, w.size() / 2), string("x") + w, string(),
        w.empty() ? string("a") : w.substr(0, w.size() - 1) + "~"}) {
    REQUIRE((a == o) == (w == o), "%s '%s' compares %s to '%s'", at.c_str(),
            w.c_str(), w == o ? "unequal" : "equal", o.c_str());
    bool plain = o.find('\0') == string::npos;
    REQUIRE((a == o.c_str()) == (plain ? w == o : w == o.c_str()),
            "%s '%s' compares %s to \"%s\"", at.c_str(), w.c_str(),
            w == o ? "unequal" : "equal", o.c_str());
  }
}
template <class E> struct ArrayK {
  using T = dro::Array<E>;
  using Model = Values<E>;
  static constexpr bool self_move = true, has_eq = true;
  static bool equal(const Model &a, const Model &b) { return a.want == b.want; }
  static T make(u64 r, Model &m) {
    size_t n = r % 4 == 0 ? 0 : mix(r) % 9;
    for (size_t i = 0; i < n; i++)
      m.want.push_back(value_of<E>(r / 8 + i));
    switch (r % 8) {
    case 1: {
      m.storage = std::make_shared<vector<E>>(m.want);
      return T(m.storage->data(), n, false);
    }
    case 2: {
      E *p = (E *)malloc(n * sizeof(E) + 1);
      std::copy(m.want.begin(), m.want.end(), p);
      return T(p, n);
    }
    case 3:
      m.want.clear();
      return T();
    case 4:
      m.want.clear();
      return T(nullptr, 0);
    default: {
      T a = T::New(n);
      size_t k = 0;
      if (r % 8 == 5)
        for (auto &x : a)
          x = m.want[k++];
      else
        for (; k < n; k++)
          a[k] = m.want[k];
      return a;
    }
    }
  }
  static Model copy(const Model &m) { return {m.want, nullptr}; }
  static void check(T &v, const Model &m, const string &at) {
    check_elements(v, m.want, at);
    if constexpr (sizeof(E) == 1)
      check_text(v, string((const char *)m.want.data(), m.want.size()), at);
    if (m.storage)
      REQUIRE(*m.storage == m.want && (v.empty() || v.data() == m.storage->data()),
              "%s does not refer to the data it was given", at.c_str());
    if constexpr (!std::is_same_v<E, dro::dVec3>) {
      std::ostringstream o;
      o << v;
      REQUIRE(o.str() == stream_of(m.want), "%s prints as %s instead of %s",
              at.c_str(), o.str().c_str(), stream_of(m.want).c_str());
    }
  }
  static void change(T &v, Model &m, u64 r) {
    size_t n = m.want.size();
    if (r % 3 == 0) { // parts are copies
      size_t num = r / 3 % 6;
      auto parts = v.split(num);
      REQUIRE(parts.size() == num, "split(%zu) gives %zu arrays", num, parts.size());
      vector<vector<E>> w;
      for (size_t i = 0; i < num; i++)
        w.emplace_back(m.want.begin() + i * (n / num),
                       m.want.begin() + (i + 1) * (n / num));
      for (size_t k = 0; k < n; k++)
        v[k] = m.want[k] = value_of<E>(r / 5 + k);
      if (m.storage)
        *m.storage = m.want;
      for (size_t i = 0; i < num; i++)
        check_elements(parts[i], w[i], pbt::fmt("part %zu of %zu", i, num));
      return;
    }
    if (r % 3 == 1 && r % 16 == 1) {
      size_t too_large = (size_t)-1 / sizeof(E) - r / 16 % 3 + (sizeof(E) > 1 ? 1 : 0);
      REQUIRE(throws([&] { T::New(too_large); }),
              "an array of %zu elements can be created", too_large);
      return;
    }
    if (!n)
      return;
    size_t k = mix(r) % n;
    E x = value_of<E>(r / 7);
    if (r % 2)
      v[k] = x;
    else {
      auto it = v.begin();
      for (size_t i = 0; i < k; i++)
        ++it;
      *it = x;
    }
    m.want[k] = x;
    // an array that refers to the same memory is another object of this model
    // only by moving, which shares the model
  }
};
// ------------------------------------------------------------------ strings
string text_value(u64 r, bool zeros) {
  string s;
  size_t n = r % 5 == 0 ? 0 : mix(r) % 12;
  for (size_t i = 0; i < n; i++) {
    u64 c = mix(r / 4 + i);
    s += c % 9 == 0 && zeros ? '\0' : (char)("ab \xc3~"[c % 5]);
  }
  return s;
}
struct Text {
  string want;
  shared_ptr<string> storage;
};
struct StringK {
  using T = dro::String;
  using Model = Text;
  static constexpr bool self_move = true, has_eq = true;
  static bool equal(const Model &a, const Model &b) { return a.want == b.want; }
  static T make(u64 r, Model &m) {
    if (r % 7 == 0)
      return T(nullptr);
    m.want = text_value(r, false);
    if (r % 7 == 1) {
      m.storage = std::make_shared<string>(m.want);
      return T(m.storage->data(), false);
    }
    return T(strdup(m.want.c_str()));
  }
  static Model copy(const Model &m) { return {m.want, nullptr}; }
  static void check(T &v, const Model &m, const string &at) {
    const string &w = m.want;
    check_text(v, w, at);
    const T &c = v;
    REQUIRE(v.size() == w.size() && v.empty() == w.empty(),
            "%s has size %zu instead of %zu", at.c_str(), v.size(), w.size());
    string it, cit;
    for (char &x : v)
      it += x;
    for (const char &x : c)
      cit += x;
    REQUIRE(it == w && cit == w, "%s: iteration gives other characters", at.c_str());
    for (size_t i = 0; i < w.size(); i++)
      REQUIRE(v[i] == w[i] && c[i] == w[i], "%s: character %zu differs", at.c_str(),
              i);
    for (size_t bad : {w.size(), w.size() + 1, (size_t)-1})
      REQUIRE(throws([&] { (void)v[bad]; }) && throws([&] { (void)c[bad]; }),
              "%s: character %zd of %zu can be accessed", at.c_str(), (ssize_t)bad,
              w.size());
    std::ostringstream o;
    o << v;
    REQUIRE(o.str() == w, "%s prints as '%s'", at.c_str(), o.str().c_str());
    dro::SizedString s((char *)w.data(), w.size(), false);
    string longer = w + "a";
    dro::SizedString l(longer.data(), longer.size(), false);
    REQUIRE(c == s && s == c && !(c == l) && !(l == c),
            "%s compares wrongly to a SizedString", at.c_str());
  }
  static void change(T &v, Model &m, u64 r) {
    if (r % 4 == 0) { // used as an array of characters
      dro::Array<char> a = v;
      vector<char> w(m.want.begin(), m.want.end());
      if (!w.empty())
        v[0] = m.want[0] = 'z';
      check_elements(a, w, "the string copied into an array");
      size_t num = 1 + r / 4 % 3;
      auto parts = v.split(num);
      for (size_t i = 0; i < num; i++)
        REQUIRE(parts[i].str() ==
                    m.want.substr(i * (m.want.size() / num), m.want.size() / num),
                "part %zu of %zu of the string differs", i, num);
      return;
    }
    if (m.want.empty())
      return;
    size_t k = mix(r) % m.want.size();
    v[k] = m.want[k] = "xyz"[r % 3];
  }
};
struct SizedK {
  using T = dro::SizedString;
  using Model = Text;
  static constexpr bool self_move = true, has_eq = true;
  static bool equal(const Model &a, const Model &b) { return a.want == b.want; }
  static T make(u64 r, Model &m) {
    if (r % 7 == 0)
      return T(nullptr, 0);
    m.want = text_value(r, true);
    if (r % 7 == 1) {
      m.storage = std::make_shared<string>(m.want);
      return T(m.storage->data(), m.want.size(), false);
    }
    char *p = (char *)malloc(m.want.size() + 1);
    memcpy(p, m.want.data(), m.want.size());
    p[m.want.size()] = 'Q'; // not terminated
    return T(p, m.want.size());
  }
  static Model copy(const Model &m) { return {m.want, nullptr}; }
  static void check(T &v, const Model &m, const string &at) {
    vector<char> w(m.want.begin(), m.want.end());
    check_elements(v, w, at);
    check_text(v, m.want, at);
    std::ostringstream o;
    o << v;
    REQUIRE(o.str() == m.want, "%s prints as '%s'", at.c_str(), o.str().c_str());
  }
  static void change(T &v, Model &m, u64 r) {
    if (m.want.empty())
      return;
    size_t k = mix(r) % m.want.size();
    v[k] = m.want[k] = "xy\0"[r % 3];
  }
};

// ------------------------------------------------------------------ d3plot
struct Content {
  string text;
  shared_ptr<void> keep; // what the object refers to
};
struct Plot {
  dops::Family f;
  std::unique_ptr<da::Handle> c;
  std::unique_ptr<dro::D3plot> x;
  size_t states, parts;
};
Plot *plot;
void end_of_history() {
  if (plot) { // error strings
    da::call(plot->c->p(), da::Call{da::NODE_IDS, 0, 0});
    plot->x->read_node_ids();
  }
}
string c_result(int op, u64 arg) {
  da::Call c{op, arg, 0};
  da::Val v = da::call(plot->c->p(), c);
  xa::as_cpp(v, plot->c->f, op);
  return da::text_of(v);
}
template <class E> struct StateOf;
#define STATE(E, OP, READ, PUT, CHANGE)                                        \
  template <> struct StateOf<E> {                                              \
    static constexpr int op = da::OP;                                          \
    static dro::Array<E> read(size_t s) { return plot->x->READ(s); }           \
    static void put(da::Val &v, const dro::Array<E> &a) { xa::PUT(v, a); }     \
    static void change(E &e, u64 r) { CHANGE }                                 \
  };
template <class S> void change_shell(S &e, u64 r) {
  double x = (double)(r % 1000);
  size_t nh = e.num_history_variables, na = e.num_additional_integration_points;
  d3plot_surface *sf = r % 4 == 0   ? &e.mid
                       : r % 4 == 1 ? &e.inner
                       : r % 4 == 2 ? &e.outer
                       : na         ? &e.add_ips[r / 4 % na]
                                    : &e.mid;
  sf->stress.y = x;
  if (nh)
    sf->history_variables[r / 16 % nh] = x;
}
STATE(d3plot_solid, SOLIDS, read_solids_state, put_solids,
      e.stress.x = (double)(r % 1000);)
STATE(dro::D3plotThickShell, TSHELLS, read_thick_shells_state, put_tshells,
      change_shell(e, r);)
STATE(dro::D3plotShell, SHELLS, read_shells_state, put_shells, change_shell(e, r);)
STATE(
    dro::D3plotBeam, BEAMS, read_beams_state, put_beams,
    double x = (double)(r % 1000); e.axial_force = x; if (e.num_integration_points) {
      auto &ip = e.ips[r / 4 % e.num_integration_points];
      ip.axial_stress = x;
      if (e.num_history_variables)
        ip.history_variables[r % e.num_history_variables] = x;
    } if (e.num_history_variables) {
      (r % 3 == 0   ? e.history_average
       : r % 3 == 1 ? e.history_min
                    : e.history_max)[r / 8 % e.num_history_variables] = x;
    })
// the mean of an element is computed: each result owns its history variables
template <class E> void check_means(const E &, const string &) {}
template <class E> void check_mean(const E &e, const string &at) {
  dro::D3plotSurface m = e.get_mean();
  auto h = e.get_mean_history_variables();
  auto kept = h; // const Array
  REQUIRE(h.size() == e.num_history_variables,
          "%s: %zu mean history variables instead of %zu", at.c_str(), h.size(),
          (size_t)e.num_history_variables);
  for (size_t i = 0; i < h.size(); i++) {
    bool same = !memcmp(&h[i], &m.history_variables[i], sizeof(double)) &&
                !memcmp(&h[i], &kept[i], sizeof(double));
    REQUIRE(same || h[i] != h[i], "%s: mean history variable %zu is %g, %g, copied %g",
            at.c_str(), i, h[i], m.history_variables[i], kept[i]);
  }
}
template <> void check_means(const dro::D3plotShell &e, const string &at) {
  check_mean(e, at);
}
template <> void check_means(const dro::D3plotThickShell &e, const string &at) {
  check_mean(e, at);
}
template <class E> struct StateK {
  using T = dro::Array<E>;
  using Model = Content;
  using S = StateOf<E>;
  static constexpr bool self_move = true, has_eq = false;
  static string text(const T &v) {
    da::Val x;
    S::put(x, v);
    return da::text_of(x);
  }
  static T make(u64 r, Model &m) {
    if (!plot->states || r % 16 == 0) {
      T a;
      m.text = text(a);
      return a;
    }
    size_t s = r % plot->states;
    m.text = c_result(S::op, s);
    return S::read(s);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s holds\n  %s\ninstead of\n  %s", at.c_str(),
            text(v).c_str(), m.text.c_str());
    for (size_t bad : {v.size(), v.size() + 1, (size_t)-1})
      REQUIRE(throws([&] { (void)v[bad]; }), "%s: element %zd of %zu can be accessed",
              at.c_str(), (ssize_t)bad, v.size());
    if (!v.empty())
      check_means(v[v.size() / 2], at);
  }
  static void change(T &v, Model &m, u64 r) {
    if (v.empty())
      return;
    if (r % 4 == 0) {
      size_t num = 1 + r / 4 % 4, n = v.size() / num;
      vector<string> want;
      for (size_t i = 0; i < num; i++) {
        // the part as seen in the whole array
        da::Val x;
        S::put(x, T(v.data() + i * n, n, false));
        want.push_back(da::text_of(x));
      }
      auto parts = v.split(num);
      for (size_t i = 0; i < v.size(); i++)
        S::change(v[i], r / 16 + i);
      REQUIRE(parts.size() == num, "split(%zu) gives %zu arrays", num, parts.size());
      for (size_t i = 0; i < num; i++)
        REQUIRE(text(parts[i]) == want[i],
                "part %zu of %zu holds\n  %s\ninstead of\n  %s", i, num,
                text(parts[i]).c_str(), want[i].c_str());
    } else
      S::change(v[mix(r) % v.size()], r);
    m.text = text(v);
  }
};
struct SurfaceK {
  using T = dro::D3plotSurface;
  struct Model {
    string text;
    size_t nh;
  };
  static constexpr bool self_move = true, has_eq = false;
  static string text(const T &v, size_t nh) {
    da::Val x;
    da::put_surface(x, v, nh);
    return da::text_of(x);
  }
  static T make(u64 r, Model &m) {
    if (r % 3 && plot->states) {
      size_t s = r % plot->states;
      if (r % 2) {
        auto a = plot->x->read_shells_state(s);
        if (!a.empty()) {
          auto &e = a[r % a.size()];
          d3plot_surface c = d3plot_get_shell_mean(&e);
          m.nh = e.num_history_variables;
          T v = e.get_mean();
          da::Val x;
          da::put_surface(x, c, m.nh);
          m.text = da::text_of(x);
          d3plot_free_surface(c);
          return v;
        }
      } else {
        auto a = plot->x->read_thick_shells_state(s);
        if (!a.empty()) {
          auto &e = a[r % a.size()];
          m.nh = e.num_history_variables;
          T v = e.get_mean();
          m.text = text(v, m.nh);
          return v;
        }
      }
    }
    d3plot_surface s{};
    s.stress.x = (double)(r % 100);
    s.stress.zx = (double)(r % 7);
    s.effective_plastic_strain = (double)(r % 33);
    m.nh = r / 3 % 4;
    s.history_variables =
        m.nh ? (double *)malloc(m.nh * sizeof(double)) : nullptr;
    for (size_t i = 0; i < m.nh; i++)
      s.history_variables[i] = (double)(mix(r + i) % 50);
    da::Val x;
    da::put_surface(x, s, m.nh);
    m.text = da::text_of(x);
    return T(s, m.nh);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v, m.nh) == m.text, "%s holds\n  %s\ninstead of\n  %s", at.c_str(),
            text(v, m.nh).c_str(), m.text.c_str());
  }
  static void change(T &v, Model &m, u64 r) {
    v.stress.xy = (double)(r % 99);
    if (m.nh)
      v.history_variables[r % m.nh] = (double)(r % 77);
    m.text = text(v, m.nh);
  }
};
struct PartK {
  using T = dro::D3plotPart;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static string text(T &v) {
    da::Val x;
    xa::put_part(x, v);
    return da::text_of(x);
  }
  static T make(u64 r, Model &m) {
    size_t p = plot->parts ? r % plot->parts : 0;
    m.text = c_result(da::PART, p);
    try {
      return plot->x->read_part(p);
    } catch (const dro::D3plot::Exception &) {
      T v(d3plot_part{});
      m.text = text(v);
      return v;
    }
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s holds\n  %s\ninstead of\n  %s", at.c_str(),
            text(v).c_str(), m.text.c_str());
    size_t n = v.get_num_elements();
    auto all = v.get_all_element_ids();
    size_t sum = v.get_solid_elements().size() + v.get_beam_elements().size() +
                 v.get_shell_elements().size() +
                 v.get_thick_shell_elements().size();
    REQUIRE(n == sum && all.size() == sum, "%s has %zu elements, %zu ids, sum is %zu",
            at.c_str(), n, all.size(), sum);
  }
  static void change(T &v, Model &m, u64 r) {
    for (auto a : {v.get_solid_elements(), v.get_thick_shell_elements(),
                   v.get_beam_elements(), v.get_shell_elements()})
      if (a.size())
        a.data()[r % a.size()] = r % 1000;
    for (auto a :
         {v.get_solid_element_indices(), v.get_thick_shell_element_indices(),
          v.get_beam_element_indices(), v.get_shell_element_indices()})
      (void)a;
    for (int k = 0; k < 4; k++) { // getters refer to the part
      auto a = k == 0   ? v.get_solid_elements()
               : k == 1 ? v.get_thick_shell_elements()
               : k == 2 ? v.get_beam_elements()
                        : v.get_shell_elements();
      auto i = k == 0   ? v.get_solid_element_indices()
               : k == 1 ? v.get_thick_shell_element_indices()
               : k == 2 ? v.get_beam_element_indices()
                        : v.get_shell_element_indices();
      if (a.size()) {
        a[r % a.size()] = r % 1000;
        i[r % a.size()] = r % 500;
      }
    }
    m.text = text(v);
  }
};
struct PlotK { // the handle
  using T = dro::D3plot;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static string text(T &v) {
    string s = pbt::fmt("%zu ", v.num_time_steps());
    for (da::Call c : {da::Call{da::NODE_IDS, 0, 0}, da::Call{da::TITLE, 0, 0},
                       da::Call{da::COORDS, 0, 0}, da::Call{da::PART_IDS, 0, 0}})
      s += da::text_of(xa::call(v, c));
    return s;
  }
  static T make(u64, Model &m) {
    m.text = pbt::fmt("%zu ", (size_t)plot->c->f.num_states) +
             c_result(da::NODE_IDS, 0) + c_result(da::TITLE, 0) +
             c_result(da::COORDS, 0) + c_result(da::PART_IDS, 0);
    return T(plot->f.root);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s reads\n  %s\ninstead of\n  %s", at.c_str(),
            text(v).c_str(), m.text.c_str());
  }
  static void change(T &v, Model &, u64 r) {
    // failing calls leave an error in the handle
    try {
      (void)v.read_node_coordinates(plot->states + r % 3);
    } catch (const dro::D3plot::Exception &) {
    }
  }
};

// ------------------------------------------------------------------ binout
struct Files {
  bo::Scene s;
  vector<string> paths;
};
Files *files;
struct BinoutK {
  using T = dro::Binout;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static string text(T &b) {
    string s;
    for (const string &p : {string("/"), string("/x/")}) {
      try {
        for (auto &c : b.get_children(p))
          s += c.str() + ";";
      } catch (const dro::Binout::Exception &e) {
        s += e.what();
      }
    }
    for (auto &p : files->paths) {
      try {
        int t = b.get_type_id(p);
        s += pbt::fmt("%d", t) + xa::read(b, p, t, false);
      } catch (const dro::Binout::Exception &e) {
        s += e.what();
      }
    }
    return s;
  }
  static T make(u64, Model &m) {
    T b(files->s.pattern);
    m.text = text(b);
    return b;
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s reads\n  %s\ninstead of\n  %s", at.c_str(),
            text(v).c_str(), m.text.c_str());
  }
  static void change(T &v, Model &, u64 r) {
    try {
      (void)v.read<double>("/no/such/" + std::to_string(r));
    } catch (const dro::Binout::Exception &) {
    }
  }
};

// ------------------------------------------------------------------ key files
struct CardState {
  string text;
  uint8_t width = 10, at = 0;
  shared_ptr<std::pair<string, card_t>> storage;
};
struct CardK {
  using T = dro::Card;
  using Model = CardState;
  static constexpr bool self_move = true, has_eq = false;
  static T make(u64 r, Model &m) {
    for (u64 i = 0; i < r % 5; i++)
      m.text += pbt::fmt("%10llu", (unsigned long long)(mix(r + i) % 10000));
    m.storage = std::make_shared<std::pair<string, card_t>>();
    m.storage->first = m.text;
    m.storage->second = {m.storage->first.data(), 0, 10};
    card_parse_begin(&m.storage->second, 10);
    T c(&m.storage->second);
    if (r % 2) {
      m.storage.reset(), m.storage = nullptr;
    }
    if (!m.storage) {
      // a copy that outlives the keyword
      std::pair<string, card_t> tmp;
      tmp.first = m.text;
      tmp.second = {tmp.first.data(), 0, 10};
      card_parse_begin(&tmp.second, 10);
      const T of_tmp(&tmp.second);
      T copy = of_tmp;
      return copy;
    }
    return c;
  }
  static Model copy(const Model &m) { return {m.text, m.width, m.at, nullptr}; }
  static void check(T &v, const Model &m, const string &at) {
    string s = v.parse_string_whole_no_trim<string>();
    REQUIRE(s == m.text, "%s is the card '%s' instead of '%s'", at.c_str(), s.c_str(),
            m.text.c_str());
    bool done = m.at >= m.text.size();
    REQUIRE(v.done() == done, "%s is%s done at %d of %zu", at.c_str(),
            v.done() ? "" : " not", m.at, m.text.size());
    if (!done) {
      long long want = strtoll(m.text.substr(m.at, m.width).c_str(), nullptr, 10);
      long long got = v.parse<int64_t>();
      REQUIRE(got == want, "%s gives %lld at column %d, expected %lld", at.c_str(),
              got, m.at, want);
    }
  }
  static void change(T &v, Model &m, u64 r) {
    if (r % 4 == 0) {
      m.width = 10;
      m.at = 0;
      v.begin(10);
    } else if (m.at < m.text.size()) {
      v.next();
      m.at += m.width;
    }
  }
};
vector<string> *key_cards; // of the keyword parsed by the transformation kinds
bool key_title;
template <class D> string dbl(D d) { return pbt::fmt("%.17g,", (double)d); }
struct IncludeK {
  using T = dro::IncludeTransform;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static string text(T &t) {
    auto s = [](const dro::String &p) { return "'" + p.str() + "',"; };
    return s(t.get_file_name()) + s(t.get_prefix()) + s(t.get_suffix()) +
           s(t.get_fcttem()) +
           pbt::fmt("%lld,%lld,%lld,%lld,%lld,", (long long)t.get_idnoff(),
                    (long long)t.get_ideoff(), (long long)t.get_idroff(),
                    (long long)t.get_incout1(), (long long)t.get_tranid()) +
           dbl(t.get_fctmas()) + dbl(t.get_fcttim()) + dbl(t.get_fctlen());
  }
  static string of_c(const include_transform_t &t) {
    auto s = [](const char *p) { return string("'") + (p ? p : "") + "',"; };
    return s(t.file_name) + s(t.prefix) + s(t.suffix) + s(t.fcttem) +
           pbt::fmt("%lld,%lld,%lld,%lld,%lld,", (long long)t.idnoff,
                    (long long)t.ideoff, (long long)t.idroff, (long long)t.incout1,
                    (long long)t.tranid) +
           dbl(t.fctmas) + dbl(t.fcttim) + dbl(t.fctlen);
  }
  static T make(u64 r, Model &m) {
    vector<card_t> a;
    size_t n = key_cards->size() ? 1 + r % key_cards->size() : 0;
    for (size_t i = 0; i < n; i++)
      a.push_back({(*key_cards)[i].data(), 0, 0});
    vector<card_t> b = a;
    keyword_t ka{(char *)"K", a.data(), n}, kb{(char *)"K", b.data(), n};
    include_transform_t c = key_parse_include_transform(&ka);
    m.text = of_c(c);
    key_free_include_transform(&c);
    dro::Keyword k(&kb);
    if (r % 3 == 0) {
      T t;
      for (size_t i = 0; i < n; i++)
        t.parse_include_transform_card(k[i], i);
      return t;
    }
    return T(k);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s holds\n  %s\ninstead of\n  %s", at.c_str(),
            text(v).c_str(), m.text.c_str());
  }
  static void change(T &v, Model &m, u64 r) {
    auto s = v.get_file_name();
    if (s.data() && !s.empty())
      s[r % s.size()] = "XYZ"[r % 3];
    if (auto p = v.get_prefix(); p.data() && !p.empty())
      p[r % p.size()] = 'P';
    m.text = text(v);
  }
};
struct DefineK {
  using T = dro::DefineTransformation;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static string text(T &t) {
    string s = pbt::fmt("%lld ", (long long)t.get_tranid());
    try {
      s += "'" + t.get_title().str() + "'";
    } catch (const dro::KeyFile::Exception &) {
      s += "no title";
    }
    auto o = t.get_options();
    for (auto &x : o) {
      s += " " + x.get_name().str();
      for (double d : x.get_parameters())
        s += dbl(d);
    }
    return s;
  }
  static string of_c(const define_transformation_t &t) {
    string s = pbt::fmt("%lld ", (long long)t.tranid) +
               (t.title ? string("'") + t.title + "'" : string("no title"));
    for (size_t i = 0; i < t.num_options; i++) {
      s += string(" ") + t.options[i].name;
      for (double d : t.options[i].parameters)
        s += dbl(d);
    }
    return s;
  }
  static T make(u64 r, Model &m) {
    vector<card_t> a;
    size_t n = key_cards->size() ? 1 + r % key_cards->size() : 0;
    for (size_t i = 0; i < n; i++)
      a.push_back({(*key_cards)[i].data(), 0, 0});
    vector<card_t> b = a;
    keyword_t ka{(char *)"K", a.data(), n}, kb{(char *)"K", b.data(), n};
    define_transformation_t c = key_parse_define_transformation(&ka, key_title);
    m.text = of_c(c);
    key_free_define_transformation(&c);
    dro::Keyword k(&kb);
    if (r % 3 == 0) {
      T t;
      for (size_t i = 0; i < n; i++)
        t.parse_define_transformation_card(k[i], i, key_title);
      return t;
    }
    return T(k, key_title);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s holds\n  %s\ninstead of\n  %s", at.c_str(),
            text(v).c_str(), m.text.c_str());
  }
  static void change(T &v, Model &m, u64 r) {
    auto o = v.get_options();
    if (o.size()) {
      auto p = o[r % o.size()].get_parameters();
      p[r % 7] = (double)(r % 1000);
      auto n = o[r % o.size()].get_name();
      if (!n.empty())
        n[0] = 'N';
      // options move like the other objects
      dro::TransformationOption x = std::move(o[0]);
      string name = x.get_name().str();
      o[0] = std::move(x);
      REQUIRE(o[0].get_name().str() == name, "a moved option has another name");
    }
    m.text = text(v);
  }
};
struct ConfigK {
  using T = dro::KeyFile::ParseConfig;
  struct Model {
    bool inc = true, ign = false;
    vector<string> paths;
  };
  static constexpr bool self_move = true, has_eq = false;
  static T make(u64 r, Model &m) {
    m.inc = r % 2;
    m.ign = r / 2 % 2;
    for (u64 i = 0; i < r / 4 % 4; i++)
      m.paths.push_back("p" + text_value(mix(r + i), false));
    vector<fs::path> p(m.paths.begin(), m.paths.end());
    return T(m.inc, m.ign, p);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    auto *h = v.get_handle();
    REQUIRE(h && !!h->parse_includes == m.inc &&
                !!h->ignore_not_found_includes == m.ign &&
                h->num_extra_include_paths == m.paths.size(),
            "%s has other options", at.c_str());
    for (size_t i = 0; i < m.paths.size(); i++)
      REQUIRE(m.paths[i] == h->extra_include_paths[i], "%s: path %zu is '%s'",
              at.c_str(), i, h->extra_include_paths[i]);
  }
  static void change(T &v, Model &m, u64 r) {
    auto *h = v.get_handle();
    if (m.paths.size()) {
      size_t k = r % m.paths.size();
      h->extra_include_paths[k][0] = 'q';
      m.paths[k][0] = 'q';
    }
  }
};
string *key_file;
struct KeywordsK {
  using T = dro::Keywords;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static string text(T &v) {
    string s;
    for (auto &k : v)
      s += string(k.name) + pbt::fmt("(%zu) ", k.num_cards) +
           (k.num_cards ? k.cards[0].string : "") + "\n";
    return s;
  }
  static T make(u64, Model &m) {
    size_t n;
    keyword_t *k = key_file_parse(key_file->c_str(), &n, nullptr, nullptr, nullptr);
    for (size_t i = 0; i < n; i++)
      m.text += string(k[i].name) + pbt::fmt("(%zu) ", k[i].num_cards) +
                (k[i].num_cards ? k[i].cards[0].string : "") + "\n";
    key_file_free(k, n);
    return dro::KeyFile::parse(*key_file);
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(text(v) == m.text, "%s holds\n%s\ninstead of\n%s", at.c_str(),
            text(v).c_str(), m.text.c_str());
  }
  static void change(T &v, Model &m, u64 r) {
    if (v.size()) {
      char *c = v.data()[r % v.size()].name;
      if (*c) { // cards looked up by name refer to the keywords
        string name = c;
        auto sl = v[name];
        REQUIRE(sl.size() >= 1, "keyword %s has an empty slice", c);
      }
    }
    m.text = text(v);
  }
};
template <class E> struct ExceptionK {
  using T = E;
  using Model = Content;
  static constexpr bool self_move = true, has_eq = false;
  static T make(u64 r, Model &m) {
    m.text = text_value(r, false);
    return T(typename E::ErrorString(strdup(m.text.c_str())));
  }
  static Model copy(const Model &m) { return m; }
  static void check(T &v, const Model &m, const string &at) {
    REQUIRE(m.text == v.what(), "%s says '%s' instead of '%s'", at.c_str(), v.what(),
            m.text.c_str());
  }
  static void change(T &v, Model &m, u64) {
    try {
      throw v; // copied
    } catch (const std::exception &e) {
      REQUIRE(m.text == e.what(), "the thrown exception says '%s' instead of '%s'",
              e.what(), m.text.c_str());
    }
  }
};

void with_plot() {
  Plot p;
  plot = &p;
  p.f = dops::gen_family(dops::Limits{10, 4, 3, 4}, pbt::dir(), dops::WHOLE);
  p.c.reset(new da::Handle(p.f.root));
  p.x.reset(new dro::D3plot(p.f.root));
  p.states = p.x->num_time_steps();
  p.parts = p.c->f.control_data.nmmat;
  switch (pbt::weighted({4, 4, 4, 1, 3, 3, 2})) {
  case 0:
    return run<StateK<dro::D3plotShell>>("shell states");
  case 1:
    return run<StateK<dro::D3plotThickShell>>("thick shell states");
  case 2:
    return run<StateK<dro::D3plotBeam>>("beam states");
  case 3:
    return run<StateK<d3plot_solid>>("solid states");
  case 4:
    return run<SurfaceK>("surfaces");
  case 5:
    return run<PartK>("parts");
  default:
    return run<PlotK>("d3plot handles");
  }
}
void with_key() {
  vector<string> cards;
  key_cards = &cards;
  bool inc = chance(1, 2);
  key_title = !inc && chance(1, 2);
  size_t n = 1 + draw(6);
  for (size_t i = 0; i < n; i++) {
    if (inc)
      cards.push_back(i == 0   ? "file name.k"
                      : i == 1 ? kg::gen_fields({0, 0, 0, 0, 0, 0, 0})
                      : i == 2 ? kg::gen_fields({0, 0, 1, 1})
                      : i == 3 ? kg::gen_fields({0, 0, 0, 1, 0})
                               : kg::gen_fields({0}));
    else if (key_title && i == 0)
      cards.push_back(chance(1, 2) ? "A title" : "");
    else if (i == (key_title ? 1 : 0))
      cards.push_back(kg::gen_fields({0}));
    else {
      string c = kg::gen_fields({1, 0, 0, 0, 0, 0, 0, 0});
      cards.push_back(c.empty() ? "SCALE" : c);
    }
  }
  if (inc)
    run<IncludeK>("INCLUDE_TRANSFORM");
  else
    run<DefineK>("DEFINE_TRANSFORMATION");
}
} // namespace

PROPERTY(C02, 30000, 800000,
         "histories of 10 to 59 operations (up to 129 in the thorough tier) (construction, destruction, copies, "
         "moves, assignments, self-assignment, swap, growing vectors, changes, "
         "comparisons, splits) on four objects of one of the C++ classes; all "
         "live objects checked after each operation, leaks measured; "
         "non-trivial: at least three copies or moves") {
  plot = nullptr;
  switch (pbt::weighted({8, 3, 3, 10, 2, 2, 3, 2, 1, 2})) {
  case 0:
    switch (draw(5)) {
    case 0:
      return run<ArrayK<int32_t>>("Array<int32>");
    case 1:
      return run<ArrayK<double>>("Array<double>");
    case 2:
      return run<ArrayK<uint8_t>>("Array<uint8>");
    case 3:
      return run<ArrayK<char>>("Array<char>");
    default:
      return run<ArrayK<dro::dVec3>>("Array<dVec3>");
    }
  case 1:
    return run<StringK>("String");
  case 2:
    return run<SizedK>("SizedString");
  case 3:
    return with_plot();
  case 4: {
    Files f;
    files = &f;
    f.s = bo::gen_scene(bo::NONE, pbt::dir());
    for (int i = 0; i < 4; i++)
      f.paths.push_back(bo::gen_op(f.s).path);
    return run<BinoutK>("binout handles");
  }
  case 5:
    return run<CardK>("cards");
  case 6:
    return with_key();
  case 7:
    return run<ConfigK>("parse configurations");
  case 8: {
    string p = pbt::dir() + "/a.k";
    key_file = &p;
    pbt::write_file(p, kg::gen_text(8, p, false).text);
    return run<KeywordsK>("keywords");
  }
  default:
    switch (draw(3)) {
    case 0:
      return run<ExceptionK<dro::Binout::Exception>>("exceptions");
    case 1:
      return run<ExceptionK<dro::D3plot::Exception>>("exceptions");
    default:
      return run<ExceptionK<dro::KeyFile::Exception>>("exceptions");
    }
  }
}

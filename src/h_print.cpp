// C03: iterators of the C++ key file classes; C04: printed values
#include "print_text.hpp"
#include "cpp/array.hpp"
#include "cpp/d3plot.hpp"
#include "cpp/d3plot_state.hpp"
#include "cpp/key.hpp"
#include "cpp/vec.hpp"
#include <cmath>
#include <limits>
#include <sstream>
using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

// ------------------------------------------------------------------ iterators
namespace {
struct Keyword {
  vector<string> texts;
  vector<card_t> cards;
};
string whole(const dro::Card &c) { return c.parse_string_whole_no_trim<string>(); }

// what is reached through ->
template <class It> auto cards_of(It &it, int) -> decltype(it->num_cards()) {
  return it->num_cards();
}
template <class It> size_t cards_of(It &, long) { pbt::fail("it->num_cards() does not compile"); }
template <class It>
auto text_at(It &it, int) -> decltype(it->template parse_string_whole_no_trim<string>()) {
  return it->template parse_string_whole_no_trim<string>();
}
template <class It> string text_at(It &, long) {
  pbt::fail("it->parse_string_whole_no_trim() does not compile");
}

// a walk from begin to end by random steps; read(it) gives the text of what the
// iterator is at
template <class It, class Read>
void walk(const It &begin, const It &end, const vector<string> &want, const string &what,
          const Read &read) {
  const size_t n = want.size();
  struct At {
    It it;
    size_t k;
  };
  vector<At> seen{{begin, 0}, {end, n}};
  It it = begin;
  size_t k = 0;
  auto meet = [&](const At &a) {
    REQUIRE((it == a.it) == (k == a.k) && (a.it == it) == (k == a.k),
            "%s: iterators at %zu and %zu of %zu are%s equal", what.c_str(), k, a.k, n,
            k == a.k ? " not" : "");
    REQUIRE((it != a.it) == (k != a.k), "%s: iterators at %zu and %zu of %zu: != is %d",
            what.c_str(), k, a.k, n, it != a.it);
    ptrdiff_t d = (ptrdiff_t)k - (ptrdiff_t)a.k;
    REQUIRE(it - a.it == d && a.it - it == -d,
            "%s: the difference of the iterators at %zu and %zu of %zu is %td and %td", what.c_str(),
            k, a.k, n, it - a.it, a.it - it);
  };
  for (;;) {
    meet(seen[0]);
    meet(seen[1]);
    meet(seen[draw(seen.size())]);
    if (k == n)
      break;
    REQUIRE(read(it) == want[k], "%s: at %zu of %zu stands %.200s, expected %.200s", what.c_str(), k,
            n, read(it).c_str(), want[k].c_str());
    if (chance(1, 3))
      seen.push_back({it, k});
    It old = it;
    switch (draw(3)) {
    case 0:
      ++it;
      break;
    case 1: {
      It r = it++;
      REQUIRE(r == old && r - old == 0 && read(r) == want[k],
              "%s: it++ at %zu of %zu does not give the previous position", what.c_str(), k, n);
      break;
    }
    default: {
      It r = ++it;
      REQUIRE(r == it && r - it == 0, "%s: ++it at %zu of %zu does not give the new position",
              what.c_str(), k, n);
    }
    }
    k++;
  }
  // copies taken on the way still are where they were
  for (auto &s : seen)
    if (s.k < n)
      REQUIRE(read(s.it) == want[s.k], "%s: a copy of the iterator at %zu of %zu has moved",
              what.c_str(), s.k, n);
}
} // namespace

PROPERTY(C03, 60000, 1500000,
         "keywords with 0 to 20 (rarely up to 70000) cards each in slices of 1 to 12 keywords, walked by random "
         "pre- and postfix increments with comparisons, differences and -> at every step; "
         "non-trivial: at least three keywords or cards in one walk") {
  const size_t n = 1 + pbt::sized(11);
  vector<Keyword> ks(n);
  vector<keyword_t> handles(n);
  string desc;
  size_t longest = n;
  for (size_t i = 0; i < n; i++) {
    size_t m = chance(1, 2000) ? pbt::sized(70000) : pbt::sized(20);
    longest = std::max(longest, m);
    for (size_t j = 0; j < m; j++)
      ks[i].texts.push_back(pbt::fmt("%zu.%zu.%d", i, j, (int)draw(1000)));
    for (auto &t : ks[i].texts)
      ks[i].cards.push_back(card_t{(char *)t.c_str(), 0, 0});
    handles[i] = keyword_t{};
    handles[i].name = (char *)"NAME";
    handles[i].cards = ks[i].cards.data();
    handles[i].num_cards = m;
    desc += pbt::fmt("%zu ", m);
  }
  pbt::sample("cards per keyword: " + desc);
  if (longest >= 3)
    pbt::nontrivial();
  // also slices from the middle
  size_t from = chance(1, 2) ? 0 : draw(n), count = 1 + draw(n - from);
  dro::KeywordSlice slice(&handles[from], count);
  auto about = [](const vector<string> &t) {
    return pbt::fmt("%zu %s", t.size(), t.empty() ? "" : t[t.size() / 2].c_str());
  };
  vector<string> want;
  for (size_t i = 0; i < count; i++)
    want.push_back(about(ks[from + i].texts));
  walk(slice.begin(), slice.end(), want, "keywords", [&](dro::KeywordSlice::Iterator it) {
    size_t m = cards_of(it, 0);
    string t = pbt::fmt("%zu ", m);
    REQUIRE((*it).num_cards() == m, "-> and * differ");
    return m ? t + whole((*it)[m / 2]) : t;
  });
  for (size_t i = 0; i < count; i++) {
    dro::Keyword k = slice[i];
    walk(k.begin(), k.end(), ks[from + i].texts, "cards", [&](dro::Keyword::CardsIterator it) {
      string t = text_at(it, 0);
      REQUIRE(t == whole(*it), "-> and * differ");
      return t;
    });
  }
}

// ------------------------------------------------------------------ printing
namespace {
double number() {
  static const double special[] = {0,
                                   -0.0,
                                   1,
                                   -1,
                                   0.1,
                                   1e10,
                                   -1e-10,
                                   1e300,
                                   5e-324,
                                   123456,
                                   1234567,
                                   999999.5,
                                   std::numeric_limits<double>::infinity(),
                                   -std::numeric_limits<double>::infinity(),
                                   std::numeric_limits<double>::quiet_NaN()};
  if (chance(1, 4))
    return special[draw(sizeof special / sizeof *special)];
  return std::ldexp((double)pbt::range(-999999, 999999), (int)pbt::range(-30, 30));
}
d3plot_tensor tensor() {
  d3plot_tensor t;
  t.x = number(), t.y = number(), t.z = number();
  t.xy = number(), t.yz = number(), t.xz = number();
  return t;
}
d3plot_surface surface() {
  d3plot_surface s{};
  s.stress = tensor();
  s.effective_plastic_strain = number();
  return s;
}
template <class T> void shell(T &s) {
  s.mid = surface(), s.inner = surface(), s.outer = surface();
  s.inner_strain = tensor(), s.outer_strain = tensor();
}
d3_word word() { return chance(1, 6) ? pbt::bits64() : draw(100000); }

struct Printed {
  std::ostringstream got;
  pt::Text want;
  Printed() {
    if (chance(1, 2)) {
      int precision = 1 + (int)draw(17);
      got.precision(precision);
      want.o.precision(precision);
    }
    switch (draw(4)) {
    case 0:
      got << std::fixed;
      want.o << std::fixed;
      break;
    case 1:
      got << std::scientific;
      want.o << std::scientific;
    }
    if (chance(1, 6)) {
      got << std::showpos;
      want.o << std::showpos;
    }
  }
};
template <class T, class Make, class Expect>
void printed(const char *what, const Make &make, const Expect &expect) {
  Printed p;
  size_t n = chance(2, 3) ? 1 : pbt::sized(6);
  vector<T> v;
  for (size_t i = 0; i < n; i++)
    v.push_back(make());
  if (n == 1 && chance(1, 2))
    p.got << v[0];
  else {
    dro::Array<T> a(v.data(), n, false);
    p.got << a;
    pbt::label("array printed");
  }
  for (auto &x : v)
    expect(p.want, x);
  string g = pt::tokens(p.got.str()), w = pt::tokens(p.want.o.str());
  pbt::sample(string(what) + ": " + p.got.str());
  if (v.size())
    pbt::nontrivial();
  REQUIRE(g == w, "%s is printed as\n  %.900s\nexpected\n  %.900s", what, p.got.str().c_str(),
          p.want.o.str().c_str());
}
} // namespace

PROPERTY(C04, 120000, 2000000,
         "vectors, connectivities, tensors, surfaces and element results with random values "
         "(zeros, infinities, NaN and large counts included), alone and in arrays, printed with "
         "random precision and notation; non-trivial: at least one value is printed") {
  switch (draw(14)) {
  case 0:
    return printed<dro::dVec3>(
        "dVec3", [] { return dro::dVec3{number(), number(), number()}; },
        [](pt::Text &t, const dro::dVec3 &v) { t(v[0])(v[1])(v[2]); });
  case 1:
    return printed<dro::fVec3>(
        "fVec3", [] { return dro::fVec3{(float)number(), (float)number(), (float)number()}; },
        [](pt::Text &t, const dro::fVec3 &v) { t(v[0])(v[1])(v[2]); });
  case 2:
    return printed<dro::uVec3>(
        "uVec3", [] { return dro::uVec3{word(), word(), word()}; },
        [](pt::Text &t, const dro::uVec3 &v) { t(v[0])(v[1])(v[2]); });
  case 3:
    return printed<d3plot_tensor>("tensor", tensor, pt::tensor<d3plot_tensor>);
  case 4:
    return printed<d3plot_x_y>(
        "x_y", [] { return d3plot_x_y{number(), number()}; },
        [](pt::Text &t, const d3plot_x_y &v) { t(v.x)(v.y); });
  case 5:
    return printed<d3plot_x_y_xy>(
        "x_y_xy", [] { return d3plot_x_y_xy{number(), number(), number()}; },
        [](pt::Text &t, const d3plot_x_y_xy &v) { t(v.x)(v.y)(v.xy); });
  case 6:
    return printed<d3plot_surface>("surface", surface, pt::surface<d3plot_surface>);
  case 7:
    return printed<d3plot_solid>(
        "solid",
        [] {
          d3plot_solid s{};
          s.stress = tensor();
          s.effective_plastic_strain = number();
          s.strain = tensor();
          return s;
        },
        pt::solid<d3plot_solid>);
  case 8:
    return printed<d3plot_thick_shell>(
        "thick shell",
        [] {
          d3plot_thick_shell s{};
          shell(s);
          return s;
        },
        pt::thick_shell<d3plot_thick_shell>);
  case 9:
    return printed<d3plot_beam>(
        "beam",
        [] {
          d3plot_beam b{};
          b.axial_force = number(), b.s_shear_resultant = number();
          b.t_shear_resultant = number(), b.s_bending_moment = number();
          b.t_bending_moment = number(), b.torsional_resultant = number();
          return b;
        },
        pt::beam<d3plot_beam>);
  case 10:
    return printed<d3plot_shell>(
        "shell",
        [] {
          d3plot_shell s{};
          shell(s);
          s.bending_moment = {number(), number(), number()};
          s.shear_resultant = {number(), number()};
          s.normal_resultant = {number(), number(), number()};
          s.thickness = number();
          s.element_dependent_variables = {number(), number()};
          s.internal_energy = number();
          return s;
        },
        pt::shell<d3plot_shell>);
  case 11:
    return printed<d3plot_solid_con>(
        "solid connectivity",
        [] {
          d3plot_solid_con c{};
          for (auto &i : c.node_indices)
            i = word();
          c.material_index = word();
          return c;
        },
        pt::con<d3plot_solid_con>);
  case 12:
    return printed<d3plot_beam_con>(
        "beam connectivity",
        [] {
          d3plot_beam_con c{};
          for (auto &i : c.node_indices)
            i = word();
          c.orientation_node_index = word();
          c._null[0] = word(), c._null[1] = word();
          c.material_index = word();
          return c;
        },
        pt::beam_con<d3plot_beam_con>);
  default:
    return printed<d3plot_shell_con>(
        "shell connectivity",
        [] {
          d3plot_shell_con c{};
          for (auto &i : c.node_indices)
            i = word();
          c.material_index = word();
          return c;
        },
        pt::con<d3plot_shell_con>);
  }
}

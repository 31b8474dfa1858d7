SAN = '"-fsanitize=address,undefined", "-fno-sanitize-recover=all"'
KEYHEAD = '''from wr import *
P = r\'\'\'
#include "key.hpp"
#include "include_transform.hpp"
#include "d3plot.hpp"
#include "d3plot_part.hpp"
#include "binout.hpp"
#include <cstdio>
#include <utility>
using namespace dro;
int main(int argc, char **argv) {
%s
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d, [%s], cpp=True)
'''


def prog(body, san=False):
    return KEYHEAD % (body, SAN if san else "")


BUGS = [
    dict(id="c01-largest-integer", property="C01",
         edits=[("src/cpp/key.hpp", "if (value > 0 && value > std::numeric_limits<T>::max()) {",
                 "if (value > 0 && value >= std::numeric_limits<T>::max()) {")],
         demo=prog(r'''
  char text[] = "       127       126     32767     32766";
  card_t c; c.string = text;
  Card card(&c);
  try { auto [a, b, e, f] = card.parse_whole<int8_t, int8_t, int16_t, int16_t>();
    printf("%d %d %d %d", a, b, e, f); } catch (const std::exception &x) { printf("error %s", x.what()); }''') + '''
    expect(run(exe), (0, "127 126 32767 32766"), "the largest values of a type")
ok()
''',
         needs="a card value that equals the largest value of the integer type it is parsed as",
         breaks="C++: parsing the largest value that an integer type can hold throws an exception"),
    dict(id="c01-empty-width", property="C01",
         edits=[("src/cpp/key.hpp", """    if (is_empty(value_widths[i])) {
      auto value""", """    if (is_empty()) {
      auto value""")],
         demo=prog(r'''
  char text[] = "       7          12.5      42     3";
  card_t c; c.string = text;
  Card card(&c);
  auto [a, b, e, f] = card.parse_whole<int, double, int, int>({8, 16, 8, 6});
  printf("%d %g %d %d", a, b, e, f);''') + '''
    expect(run(exe), (0, "7 12.5 42 3"), "values with their own widths")
ok()
''',
         needs="parse_whole with value widths wider than 10 and a value whose first ten columns are blank",
         breaks="C++: whether a value of a card is empty is decided with the default width instead of its own"),
    dict(id="c01-warning-with-error", property="C01",
         edits=[("src/cpp/key.cpp", """                     parse_config.get_handle(), &error_string, &warning_string);
  if (warning_string) {
    if (warnings == nullptr) {""", """                     parse_config.get_handle(), &error_string, &warning_string);
  if (warning_string) {
    if (warnings == nullptr || error_string) {""")],
         demo=prog(r'''
  for (int callback = 0; callback < 2; callback++) {
    std::optional<String> w;
    try {
      if (callback) KeyFile::parse_with_callback(argv[1], [](auto, auto, auto, auto) {}, KeyFile::ParseConfig(), &w);
      else KeyFile::parse(argv[1], KeyFile::ParseConfig(), &w);
      printf("parsed; ");
    } catch (const std::exception &x) { printf("error; "); }
    printf("%s\n", w ? "warning" : "-");
  }''') + '''
    open(d + "/k", "w").write("*KEYWORD\\n*INCLUDE_PATH\\n/no/such/folder\\n*INCLUDE\\nno_such_file.k\\n*END\\n")
    expect(run(exe, d + "/k", cwd=d), (0, "error; warning\\nerror; warning\\n"), "warnings of a failing parse")
ok()
''',
         needs="a key file that leads to both a warning and an error",
         breaks="C++: the warnings are lost when key_file_parse also reports an error"),
    dict(id="c01-part-node-cons", property="C01",
         edits=[("src/cpp/d3plot_part.cpp", """      beam_cons ? beam_cons->data() : NULL,
      shell_cons ? shell_cons->data() : NULL,
      thick_shell_cons ? thick_shell_cons->data() : NULL);
  if (plot_file.get_handle().error_string) {
    throw D3plot::Exception(D3plot::Exception::ErrorString(
        plot_file.get_handle().error_string, false));
  }

  return Array<d3_word>(part_node_ids, num_part_node_ids);""",
                 """      beam_cons ? beam_cons->data() : NULL,
      shell_cons ? shell_cons->data() : NULL,
      thick_shell_cons ? thick_shell_cons->data() : NULL);
  if (!part_node_ids && plot_file.get_handle().error_string) {
    throw D3plot::Exception(D3plot::Exception::ErrorString(
        plot_file.get_handle().error_string, false));
  }

  return Array<d3_word>(part_node_ids,
                        node_ids && num_part_node_ids > node_ids->size() / 2
                            ? node_ids->size()
                            : num_part_node_ids);""")],
         demo=prog(r"""
  D3plot p(argv[1]);
  auto nodes = p.read_node_ids();
  auto part = p.read_part(0);
  auto a = part.get_node_ids(p), b = part.get_node_ids(p, nullptr, nullptr, nullptr, nullptr, &nodes);
  printf("%d %d", (int)a.size(), (int)b.size());""") + """
    p = Plot(sol=[[1, 2, 3, 4, 4, 4, 4, 4, 1], [5, 6, 4, 3, 2, 2, 2, 2, 1]], ids=dict(sol=[5, 6]))
    p.write(d + "/d3plot")
    expect(run(exe, d + "/d3plot"), (0, "6 6"), "nodes of a part with preloaded node ids")
ok()
""",
         needs="get_node_ids with preloaded node ids for a part that contains more than half of the nodes, but not all",
         breaks="C++: the array of node ids of the part is reported with the size of all node ids"),
    dict(id="c02-shared-include-path", property="C02",
         edits=[("src/cpp/key.cpp", """  m_handle = rhs.m_handle;
  if (m_handle.num_extra_include_paths != 0) {""", """  m_handle = rhs.m_handle;
  if (m_handle.num_extra_include_paths > 1) {""")],
         demo=prog(r'''
  KeyFile::ParseConfig a(true, false, {"one"});
  KeyFile::ParseConfig b(a);
  printf("%d", (int)(a.get_handle()->extra_include_paths != b.get_handle()->extra_include_paths));''', True) + '''
    expect(run(exe), (0, "1"), "a copied configuration with one path")
ok()
''',
         needs="copying a ParseConfig that has exactly one extra include path",
         breaks="C++: the copy shares the include path with the original, which is freed twice"),
    dict(id="c02-sized-string-end", property="C02",
         edits=[("src/cpp/array.hpp", """    for (size_t i = 0; i < m_size; i++) {
      if (m_data[i] != rhs.m_data[i]) {
        return false;
      }
    }

    return true;
  }

  bool operator==(const std::string &rhs) const noexcept {
    return m_size""", """    for (size_t i = 1; i < m_size; i++) {
      if (m_data[i - 1] != rhs.m_data[i - 1]) {
        return false;
      }
    }

    return true;
  }

  bool operator==(const std::string &rhs) const noexcept {
    return m_size""")],
         demo=prog(r'''
  char a[] = "part 1", b[] = "part 2", e[] = "part 1";
  SizedString x(a, 6, false), y(b, 6, false), z(e, 6, false);
  printf("%d %d %d", (int)(x == y), (int)(x == z), (int)(x == x));''') + '''
    expect(run(exe), (0, "0 1 1"), "equality of strings")
ok()
''',
         needs="comparing two SizedStrings of the same length that differ in the last character only",
         breaks="C++: SizedStrings that differ in the last character only are equal"),
    dict(id="c02-mean-history", property="C02",
         edits=[("src/cpp/d3plot_state.cpp", """  d3plot_surface ip = d3plot_get_thick_shell_mean(
      reinterpret_cast<const d3plot_thick_shell *>(this));
  return Array<double>(ip.history_variables, num_history_variables);""",
                 """  d3plot_surface ip = d3plot_get_thick_shell_mean(
      reinterpret_cast<const d3plot_thick_shell *>(this));
  return Array<double>(ip.history_variables, num_history_variables,
                       num_additional_integration_points == 0);""")],
         demo=prog(r'''
  D3plot p(argv[1]);
  auto shells = p.read_thick_shells_state(0);
  double sum = 0.0;
  for (size_t i = 0; i < shells.size(); i++)
    for (int k = 0; k < 3; k++) { auto h = shells[i].get_mean_history_variables(); sum += h[0]; }
  printf("%d", (int)(sum != 0.0));''', True) + '''
    p = Plot(tsh=[[1, 2, 3, 4, 5, 6, 7, 8, 1]] * 2, maxint=4, neips=2, ids=dict(tsh=[5, 6]))
    p.write(d + "/d3plot")
    expect(run(exe, d + "/d3plot"), (0, "1"), "mean history variables")
ok()
''',
         needs="mean history variables of a thick shell with additional integration points",
         breaks="C++: the memory of the mean history variables is never freed"),
    dict(id="c02-keyword-bound", property="C02",
         edits=[("src/cpp/key.cpp", """  m_data = rhs.m_data;
  m_size = rhs.m_size;
  m_delete_data = rhs.m_delete_data;

  rhs.m_data = nullptr;
  rhs.m_size = 0;
""", """  m_data = rhs.m_data;
  m_size = rhs.m_size;
  m_delete_data = rhs.m_delete_data;

  if (rhs.m_size > 1) {
    rhs.m_data = nullptr;
    rhs.m_size = 0;
  }
""")],
         demo=prog(r'''
  {
    Keywords a(KeyFile::parse(argv[1]));
    Keywords b(std::move(a));
    printf("%d %d", (int)a.size(), (int)b.size());
  }''', True) + '''
    open(d + "/k", "w").write("*NODE\\n1,2,3\\n*END\\n")
    expect(run(exe, d + "/k"), (0, "0 1"), "moved keywords")
ok()
''',
         needs="moving the Keywords of a key file that contains exactly one keyword",
         breaks="C++: the keywords of a moved object are freed twice"),
    dict(id="c02-copied-suffix", property="C02",
         edits=[("src/cpp/include_transform.cpp", """  if (rhs.m_handle.suffix)
    m_handle.suffix = strdup(rhs.m_handle.suffix);
""", """  if (rhs.m_handle.suffix)
    m_handle.suffix =
        strdup(rhs.m_handle.prefix ? rhs.m_handle.prefix : rhs.m_handle.suffix);
""")],
         demo=prog(r'''
  auto kws = KeyFile::parse(argv[1], KeyFile::ParseConfig(false));
  auto kw = kws["INCLUDE_TRANSFORM"][0];
  IncludeTransform a(kw);
  IncludeTransform b(a);
  printf("<%s> <%s>", a.get_suffix().str().c_str(), b.get_suffix().str().c_str());''') + '''
    open(d + "/k", "w").write("*INCLUDE_TRANSFORM\\nfile.k\\n         1\\n         8                 pre       suf\\n*END\\n")
    expect(run(exe, d + "/k"), (0, "<suf> <suf>"), "suffix of a copy")
ok()
''',
         needs="copying an IncludeTransform with both a prefix and a suffix",
         breaks="C++: the copy reports the prefix as its suffix"),
]

HEAD = '''from wr import *
P = r\'\'\'
#include "key.hpp"
#include "d3plot.hpp"
#include <cstdio>
#include <iostream>
#include <vector>
using namespace dro;
int main(int argc, char **argv) {
%s
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d, [], cpp=True)
'''

BUGS = [
    dict(id="c03-postfix-last", property="C03",
         edits=[("src/cpp/key.hpp", """    Iterator operator++(int) noexcept {
      auto rv = *this;
      ++(*this);
      return rv;
    }""", """    Iterator operator++(int) noexcept {
      ++(*this);
      return Iterator(m_data - 1, m_left + 1);
    }""")],
         demo=HEAD % r'''
  keyword_t k[3] = {};
  for (int i = 0; i < 3; i++) k[i].num_cards = i + 1;
  KeywordSlice slice(k, 3);
  auto it = slice.begin();
  ++it; ++it;
  auto before = it;
  auto last = it++;
  printf("%d %d", last == before, it == slice.end());''' + '''
    expect(run(exe), (0, "1 1"), "the former position of a postfix increment")
ok()
''',
         needs="a postfix increment of the iterator of the last keyword of a slice, whose value is used",
         breaks="C++: the postfix increment does not give the last keyword when it steps over it"),
    dict(id="c03-far-difference", property="C03",
         edits=[("src/cpp/key.hpp", "      return m_index - rhs.m_index;",
                 "      return static_cast<int16_t>(m_index - rhs.m_index);")],
         demo=HEAD % r'''
  std::vector<card_t> c(40000);
  keyword_t k = {};
  k.cards = c.data(); k.num_cards = c.size();
  Keyword keyword(&k);
  printf("%ld", (long)(keyword.end() - keyword.begin()));''' + '''
    expect(run(exe), (0, "40000"), "the difference of card iterators")
ok()
''',
         needs="card iterators with more than 32767 cards between them",
         breaks="C++: the difference of card iterators is truncated to 16 bits"),
    dict(id="c04-orientation-node", property="C04",
         edits=[("src/cpp/d3plot.cpp", """                << b.orientation_node_index << "; " << b.material_index << ")";""",
                 """                << static_cast<uint32_t>(b.orientation_node_index) << "; "
                << b.material_index << ")";""")],
         demo=HEAD % r'''
  d3plot_beam_con c = {};
  c.node_indices[0] = 1; c.node_indices[1] = 2;
  c.orientation_node_index = 5000000000ull; c.material_index = 3;
  std::cout << c;''' + '''
    expect("5000000000" in run(exe)[1], True, "the printed orientation node")
ok()
''',
         needs="a beam whose orientation node index is above 2^32",
         breaks="C++ and Python: printed beam connectivities show the orientation node modulo 2^32"),
    dict(id="c04-vec-precision", property="C04",
         edits=[("src/cpp/vec.hpp", """static ostream &operator<<(ostream &stream, const dro::dVec3 &vec) {
  return stream << "(" << vec[0] << ", " << vec[1] << ", " << vec[2] << ")";""",
                 """static ostream &operator<<(ostream &stream, const dro::dVec3 &vec) {
  return stream << "(" << vec[0] << ", " << vec[1] << ", "
                << static_cast<float>(vec[2]) << ")";""")],
         demo=HEAD % r'''
  dVec3 v{0.1, 0.2, 0.3};
  std::cout.precision(12);
  std::cout << v;''' + '''
    out = run(exe)[1]
    expect(all(x in out for x in ("0.1", "0.2", "0.3")) and "00" not in out, True, "printed coordinates: " + out)
ok()
''',
         needs="a stream precision above seven digits, or coordinates outside the range of float",
         breaks="C++: the z coordinate of a printed vector has the precision of a float"),
]

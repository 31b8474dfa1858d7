HEAD = '''from wr import *
with Scratch() as d:
    exe = build_c(D3PLOT_C, d)
'''
BUGS = [
    dict(id="d01-signed-ids", property="D01",
         edits=[("src/d3plot.c", "    uint32_t *ids32 = malloc(*num_ids * plot_file->buffer.word_size);",
                 "    int32_t *ids32 = malloc(*num_ids * plot_file->buffer.word_size);")],
         demo=HEAD + '''
    ids = [3, 7, 9, 10, 11, 12, 2147483647, 3000000000]
    Plot(shell=[[1, 2, 3, 4, 1]], ids=dict(node=ids)).write(d + "/p")
    expect(run(exe, d + "/p", "nodes", 0)[1], "nodes 0: " + " ".join(map(str, ids)) + "\\n", "node ids")
ok()
''', needs="a file with 4 byte words and an id of 2^31 or more", breaks="large ids are sign extended"),

    dict(id="d02-deleted-tshells", property="D02",
         edits=[("src/d3plot_state.c", "skip_words = CDP.nel8 + CDP.nelt + CDP.nel4 + CDP.nel2;",
                 "skip_words = CDP.nel8 + CDP.nel4 + CDP.nel2;")],
         demo=HEAD + '''
    Plot(shell=[[1, 2, 3, 4, 1]], tsh=[[1, 2, 3, 4, 5, 6, 7, 8, 2]] * 3, mdlopt=2, times=[0.0, 0.5, 1.0]).write(d + "/p")
    expect(run(exe, d + "/p", "times", 0)[1], "times 0: 0 0.5 1\\n", "times of the states")
ok()
''', needs="element deletion data per element (MAXINT < -10000), thick shells and several states in one file",
         breaks="the position of every state but the first of a file is wrong"),

    dict(id="d03-third-file", property="D03",
         edits=[("src/d3_buffer.c", "        cur_file_pos = 0;\n", "")],
         demo=HEAD + '''
    p = Plot(shell=[[1, 2, 3, 4, 1]], nn=12, times=[0.0])
    p.write(d + "/a")
    raw = open(d + "/a01", "rb").read()
    cut = 4 * (1 + p.nglbv() + 3)
    open(d + "/b", "wb").write(open(d + "/a", "rb").read())
    parts = [raw[:cut], raw[cut:cut + 4 * (1 + p.nglbv() + 5)], raw[cut + 4 * (1 + p.nglbv() + 5):]]
    for k, x in enumerate(parts):
        open(d + "/b%02d" % (k + 1), "wb").write(x)
    a, b = run(exe, d + "/a", "coords", 0)[1], run(exe, d + "/b", "coords", 0)[1]
    expect(b, a, "coordinates of a state which is continued in two more files")
ok()
''', needs="one read which spans three files of the family, a middle file that is shorter than the first",
         breaks="too little is read from the middle file"),

    dict(id="d04-tshell-strain", property="D04",
         edits=[("src/d3plot.c", """        if (j == 2) {
          /* If ISTRN=1, define inner and outer strain after outer surface */
          if (inner_outer_strain_written) {
            memcpy(""", """        if (j == num_integration_points - 1) {
          /* If ISTRN=1, define inner and outer strain after outer surface */
          if (inner_outer_strain_written) {
            memcpy(""")],
         demo=HEAD + '''
    p = Plot(ws=8, maxint=5, istrn=True, tsh=[[1, 2, 3, 4, 5, 6, 7, 8, 1]] * 2)
    p.write(d + "/p")
    want = "tshell_state 0:"
    for e in range(2):
        v = ["%.9g" % p.value("tsh", 0, e, j) for j in range(p.nv3dt())]
        s = lambda k: " [" + " ".join(v[k:k + 6]) + "]"
        ip = lambda k: s(k) + " " + v[k + 6] + " h()"
        want += " T" + ip(0) + ip(7) + ip(14) + s(21) + s(27) + ip(33) + ip(40)
    expect(run(exe, d + "/p", "tshell_state", 0)[1], want + "\\n", "thick shell state")
ok()
''', needs="a file with 8 byte words, thick shells, strains and more than three integration points",
         breaks="strains and additional integration points of thick shells get each other's values"),

    dict(id="d05-history-mean", property="D05",
         edits=[("src/d3plot_state.c", "    mean_ip.history_variables[j] /= (double)num_integration_points;", "    mean_ip.history_variables[j] /= 3.0;")],
         nth={"    mean_ip.history_variables[j] /= (double)num_integration_points;": 1},
         demo="""from wr import *
P = r'''
#include "d3plot.h"
#include <stdio.h>
int main() {
  double h[5][2] = {{1, 2}, {3, 4}, {5, 6}, {7, 8}, {9, 15}};
  d3plot_surface add[2] = {{0}};
  d3plot_thick_shell t = {0};
  t.mid.history_variables = h[0]; t.inner.history_variables = h[1]; t.outer.history_variables = h[2];
  add[0].history_variables = h[3]; add[1].history_variables = h[4];
  t.add_ips = add; t.num_additional_integration_points = 2; t.num_history_variables = 2;
  d3plot_surface m = d3plot_get_thick_shell_mean(&t);
  printf("%g %g", m.history_variables[0], m.history_variables[1]);
  d3plot_free_surface(m);
  return 0;
}
'''
with Scratch() as d:
    expect(run(build_c(P, d))[1], "5 7", "mean history variables of a thick shell")
ok()
""", needs="thick shells with history variables and more than three integration points",
         breaks="the mean history variables are divided by the wrong number of points"),

    dict(id="d06-beam-part", property="D06",
         edits=[("src/d3plot.c", """      part.num_beams == 0 && part.num_shells == 0) {
    ERROR_AND_NO_RETURN_F_PTR("The part with index""", """      part.num_shells == 0) {
    ERROR_AND_NO_RETURN_F_PTR("The part with index""")],
         demo=HEAD + '''
    Plot(shell=[[1, 2, 3, 4, 1]], beam=[[1, 2, 3, 0, 0, 1], [3, 4, 5, 0, 0, 2]]).write(d + "/p")
    out = run(exe, d + "/p", "part", 1)[1]
    expect(out, "part 1: sol tsh beam 2@1 shell all 2 nodes 3 4 indices 2 3 num 2\\n", "a part of beams")
ok()
''', needs="a part which consists of beams only", breaks="such a part is reported as not existing"),

    dict(id="d07-idtdt", property="D07",
         edits=[("src/d3plot.c", "if (_get_nth_digit(idtdt, 3) == 1) {", "if (_get_nth_digit(idtdt, 4) == 1) {")],
         demo=HEAD + '''
    Plot(shell=[[1, 2, 3, 4, 1]], idtdt=1000).write(d + "/p")
    expect("open error" in run(exe, d + "/p", "shell_state", 0)[1], True, "thermal strains are not supported")
ok()
''', needs="a file with thermal strain tensors (IDTDT = 1000)", breaks="an unsupported file is accepted and its states are misread"),

    dict(id="d08-late-clear", property="D08",
         edits=[("src/d3plot.c", """  BEGIN_PROFILE_FUNC();
  D3PLOT_CLEAR_ERROR_STRING();

  if (plot_file->control_data.nel4 == 0) {
    *num_shells = 0;
    END_PROFILE_FUNC();
    return NULL;
  }

  *num_shells = plot_file->control_data.nel4;
  d3plot_shell_con""", """  BEGIN_PROFILE_FUNC();

  if (plot_file->control_data.nel4 == 0) {
    *num_shells = 0;
    END_PROFILE_FUNC();
    return NULL;
  }

  D3PLOT_CLEAR_ERROR_STRING();
  *num_shells = plot_file->control_data.nel4;
  d3plot_shell_con""")],
         demo=HEAD + '''
    Plot(sol=[[1, 2, 3, 4, 5, 6, 7, 8, 1]]).write(d + "/p")
    out = run(exe, d + "/p", "shell_con", 0, "time", 9, "shell_con", 0)[1].splitlines()
    expect("error" in out[1], True, "state 9 does not exist")
    expect(out[2], out[0], "the shells of a file without shells after a failed call")
ok()
''', needs="a failed call followed by reading the shells of a file without shells", breaks="the error of the earlier call is reported again"),

    dict(id="d09-mixed-part", property="D09",
         edits=[("src/pgni.h", "            if (*num_part_node_ids == 0) {\n", "            if (i == 0 && j == 0) {\n")],
         nth={"            if (*num_part_node_ids == 0) {\n": 3},
         demo=HEAD + '''
    Plot(nn=12, tsh=[[5, 6, 7, 8, 9, 10, 11, 12, 2]], shell=[[1, 2, 3, 8, 2]]).write(d + "/p")
    out = run(exe, d + "/p", "part", 1)[1]
    expect(out.split("nodes")[1], " 1 2 3 5 6 7 8 9 10 11 12 indices 0 1 2 4 5 6 7 8 9 10 11 num 11\\n", "nodes of part 1: " + out)
ok()
''', needs="a part which contains thick shells and elements of another kind", breaks="the nodes of the other elements are missing from the node ids of the part"),

    dict(id="d10-cmp-overflow", property="D10",
         edits=[("src/binary_search.c", "  return a > b ? 1 : (a < b ? -1 : 0);", "  return (int)(a - b);")],
         demo="""from wr import *
P = r'''
#include "d3plot.h"
#include <stdio.h>
int main() {
  d3_word ids[] = {1, 5, 9, 3000000000ull, 5000000000ull};
  int i;
  for (i = 0; i < 5; i++) printf("%lld ", (long long)d3plot_index_for_id(ids[i], ids, 5));
  printf("%lld", (long long)d3plot_index_for_id(4294967297ull, ids, 5));
  return 0;
}
'''
with Scratch() as d:
    expect(run(build_c(P, d))[1], "0 1 2 3 4 -1", "positions")
ok()
""", needs="ids which are 2^31 or more apart", breaks="present ids are not found and absent ids are"),
]

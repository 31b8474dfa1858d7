HEAD = '''from wr import *
with Scratch() as d:
    exe = build_c(KEY_C, d)
    def parse(text, *opts):
        open(d + "/k", "w").write(text)
        return run(exe, d + "/k", *opts, cwd=d)[1]
'''
CARD = '''from wr import *
P = r\'\'\'
#include "key.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
int main(int c, char **v) {
  card_t k; k.string = v[1];
  int i;
  card_parse_begin(&k, 10);
  for (i = 2; i < c; i++) {
    int w = atoi(v[i]);
    errno = 0;
    double f = card_parse_float64_width(&k, w);
    int e = errno;
    char *s = card_parse_string_width(&k, w);
    printf("%.17g %d <%s>\\n", f, e != 0, s);
    free(s);
    card_parse_next_width(&k, w);
  }
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d)
'''
TRANS = '''from wr import *
P = r\'\'\'
#include "key.h"
#include "include_transform.h"
#include <stdio.h>
int main(int c, char **v) {
  card_t cards[16]; keyword_t k; int i, j;
  for (i = 1; i < c; i++) cards[i - 1].string = v[i];
  k.name = "DEFINE_TRANSFORMATION"; k.cards = cards; k.num_cards = c - 1;
  define_transformation_t t = key_parse_define_transformation(&k, 0);
  printf("%lld\\n", (long long)t.tranid);
  for (i = 0; i < t.num_options; i++) {
    printf("%s", t.options[i].name);
    for (j = 0; j < 7; j++) printf(" %g", t.options[i].parameters[j]);
    printf("\\n");
  }
  key_free_define_transformation(&t);
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d)
'''
BUGS = [
    dict(id="k01-last-character", property="K01",
         edits=[("src/line.c", """      lr->buffer_index >= lr->bytes_read) {
    END""", """      lr->buffer_index + 1 >= lr->bytes_read) {
    END""")],
         demo=HEAD + '''
    expect(parse("*PART\\n1\\n2"), "*PART\\n  <1>\\n  <2>\\n", "cards")
ok()
''', needs="a last line of one character without a line ending", breaks="the last line is lost"),

    dict(id="k02-slice-start", property="K02",
         edits=[("src/key.c", """  while (start_index > 0 && strcmp(keywords[start_index - 1].name, name) == 0) {""",
                 """  while (start_index > 1 && strcmp(keywords[start_index - 1].name, name) == 0) {""")],
         demo='''from wr import *
P = r\'\'\'
#include "key.h"
#include <stdio.h>
int main(int c, char **v) {
  size_t n, m; char *e, *w;
  keyword_t *k = key_file_parse(v[1], &n, NULL, &e, &w);
  keyword_t *s = key_file_get_slice(k, n, "A", &m);
  printf("%d %d", (int)m, (int)(s - k));
  key_file_free(k, n);
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d)
    open(d + "/k", "w").write("*A\\n1\\n*A\\n2\\n*B\\n3\\n*A\\n4\\n*C\\n5\\n")
    expect(run(exe, d + "/k")[1], "3 0", "slice of A")
ok()
''', needs="several keywords with the name that is sorted first", breaks="the slice lacks the first of them"),

    dict(id="k03-include-path-card", property="K03",
         edits=[("src/key.c", """              rec_ptr->include_paths[rec_ptr->num_include_paths - 1] =
                  full_include_path_name;
            }

            /* continue without calling the callback for the card*/
            if (card.string != line_reader.line.buffer) {
              free(card.string);
            }

            card_index++;
            continue;""", """              rec_ptr->include_paths[rec_ptr->num_include_paths - 1] =
                  full_include_path_name;
              card_index++;
            }

            /* continue without calling the callback for the card*/
            if (card.string != line_reader.line.buffer) {
              free(card.string);
            }

            continue;""")],
         demo=HEAD + '''
    out = parse("*INCLUDE_PATH_RELATIVE\\nnowhere\\n*A\\n1\\n", "callback")
    expect(out, "cb k:4 A 0 <1>\\nwarning\\n", "reports")
ok()
''', needs="an *INCLUDE_PATH_RELATIVE which does not exist, followed by another keyword",
         breaks="the include path keyword is reported as a keyword without cards"),

    dict(id="k04-relative-to-cwd", property="K04",
         edits=[("src/key.c", """                rec_ptr->root_folder, current_multi_line_string.buffer);""",
                 """                rec_ptr->include_paths[0], current_multi_line_string.buffer);""")],
         demo=HEAD + '''
    os.makedirs(d + "/m/inc")
    os.makedirs(d + "/w")
    open(d + "/m/inc/p.k", "w").write("*B\\n2\\n")
    open(d + "/m/k", "w").write("*INCLUDE_PATH_RELATIVE\\ninc\\n*INCLUDE\\np.k\\n*A\\n1\\n")
    expect(run(exe, "../m/k", cwd=d + "/w")[1], "*A\\n  <1>\\n*B\\n  <2>\\n", "keywords")
ok()
''', needs="a root file outside of the working directory which uses *INCLUDE_PATH_RELATIVE", breaks="the folder is looked for in the working directory"),

    dict(id="k05-exponent-columns", property="K05",
         edits=[("src/key.c", """    while (i < card->current_index + value_width && card->string[i] != '\\0') {
      if (card->string[i] >= '0' && card->string[i] <= '9') {
        has_exponent = 1;""", """    while (card->string[i] != '\\0') {
      if (card->string[i] >= '0' && card->string[i] <= '9') {
        has_exponent = 1;""")],
         demo=CARD + '''
    expect(run(exe, "  1.500E+11234567890", 10, 10)[1], "15 0 <1.500E+1>\\n1234567890 0 <1234567890>\\n".replace("1.500E+1>", "1.500E+1>"), "two adjacent fields")
ok()
''', needs="a number with an exponent which fills its field up to the next one", breaks="digits of the next field become part of the exponent"),

    dict(id="k06-wide-field", property="K06",
         edits=[("src/key.c", """  const uint8_t start_index = i;

  uint8_t end_index = i;""", """  const uint8_t start_index = i;

  int8_t end_index = i;""")],
         demo=CARD + '''
    s = "x" * 100 + " " + "y" * 60
    rc, out = run(exe, s, 200)
    expect((rc, out), (0, "0 1 <%s>\\n" % s), "a wide field")
ok()
''', needs="a field with text after column 128", breaks="the length of the text is computed wrongly"),

    dict(id="k07-seventh-parameter", property="K07",
         edits=[("src/include_transform.c", "while (!card_parse_done(card) && i < 7) {", "while (!card_parse_done(card) && i < 6) {")],
         demo=TRANS + '''
    out = run(exe, "%10d" % 5, "%-10s" % "ROTATE" + "".join("%10d" % v for v in (1, 2, 3, 4, 5, 6, 7)))[1]
    expect(out, "5\\nROTATE 1 2 3 4 5 6 7\\n", "transformation")
ok()
''', needs="a transformation option with seven parameters", breaks="the seventh parameter is zero"),

    dict(id="k08-short-name", property="K08",
         edits=[("src/key.c", "  if (multi_line_string->ptr >= 2 &&\n", "  if (multi_line_string->ptr >= 1 &&\n")],
         demo='''from wr import *
with Scratch() as d:
    exe = build_c(KEY_C, d, ["-fsanitize=address"])
    open(d + "/k", "w").write("*INCLUDE\\nq\\n*A\\n1\\n")
    out = run(exe, d + "/k", "ignore", cwd=d)[1]
    expect(out, "*A\\n  <1>\\nwarning\\n", "keywords")
ok()
''', needs="an include file name of one character", breaks="a byte in front of the name is read"),
]

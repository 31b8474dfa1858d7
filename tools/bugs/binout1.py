HEAD = '''from wr import *
with Scratch() as d:
    exe = build_c(BINOUT_C, d)
'''
BUGS = [
    dict(id="b05-stale-file-index", property="B05",
         edits=[("src/binout_directory.c", """    file = &dir->children[index];
  }

  file->type = BINOUT_FILE;""", """    file = &dir->children[index];
    file->file_index = file_index;
  }

  file->type = BINOUT_FILE;"""), ("src/binout_directory.c", """  file->size = size;
  file->file_index = file_index;
""", """  file->size = size;
""")],
         demo=HEAD + '''
    binout(d + "/b0000", [("/nodout/metadata", "ids", "i4", [1, 2, 3]), ("/a/metadata", "x", "i4", [5, 5, 5, 5])])
    binout(d + "/b0001", [("/zz/metadata", "y", "i4", [7] * 9), ("/nodout/metadata", "ids", "i4", [8, 9, 10])])
    _, out = run(exe, d + "/b000*", "read_i32", "/nodout/metadata/ids")
    expect(out, "read_i32 /nodout/metadata/ids: 8 9 10\\n", "the variable of the later file")
ok()
''', needs="a pattern matching two files which record the same variable at different positions",
         breaks="the merged view returns bytes of the wrong file for a variable that a later file records again"),

    dict(id="b01-retyped", property="B01",
         edits=[("src/binout_directory.c", """    file = &dir->children[index];
  }

  file->type = BINOUT_FILE;""", """    file = &dir->children[index];
    file->var_type = var_type;
  }

  file->type = BINOUT_FILE;"""), ("src/binout_directory.c", """  file->var_type = var_type;
  file->size = size;
""", """  file->size = size;
""")],
         demo=HEAD + '''
    binout(d + "/b", [("/a/metadata", "x", "i4", [1, 2]), ("/a/metadata", "x", "f8", [1.5, 2.5, 3.5])])
    _, out = run(exe, d + "/b", "read_f64", "/a/metadata/x", "type", "/a/metadata/x")
    expect(out, "read_f64 /a/metadata/x: 1.5 2.5 3.5\\ntype /a/metadata/x: 10\\n", "the later record")
ok()
''', needs="a variable which is recorded twice with different types",
         breaks="the later record is read with the type of the earlier one"),

    dict(id="b03-digit-nine", property="B03",
         edits=[("src/binout.c", "if (!(folder_name[i] >= 48 && folder_name[i] <= 57)) {",
                 "if (!(folder_name[i] >= 48 && folder_name[i] < 57)) {")],
         demo=HEAD + '''
    binout(d + "/b", [("/nodout/d%06d" % i, "time", "f4", [float(i)]) for i in range(1, 13)])
    _, out = run(exe, d + "/b", "steps", "/nodout")
    expect(out, "steps /nodout: 12\\n", "number of time steps")
ok()
''', needs="a time step folder with the digit 9",
         breaks="time steps whose number contains a 9 are not counted"),

    dict(id="b04-metadata-folder", property="B04",
         edits=[("src/binout.c", """            folder = entry;
            string_builder_append_char(&real_path, PATH_SEP);
            string_builder_append(&real_path, "metadata");
            string_builder_append_char(&real_path, PATH_SEP);
            string_builder_append(&real_path, folder->name);
            continue;""", """            folder = entry;
            string_builder_append_char(&real_path, PATH_SEP);
            string_builder_append(&real_path, folder->name);
            continue;""")],
         demo=HEAD + '''
    binout(d + "/b", [("/rcforc/metadata/titles", "first", "i1", [1, 2])])
    _, out = run(exe, d + "/b", "simple", "rcforc/titles/first")
    expect(out, "simple rcforc/titles/first: /rcforc/metadata/titles/first type 1 timed 0\\n", "real path")
ok()
''', needs="a folder inside of a metadata folder", breaks="the resolved path of a variable in a folder below metadata lacks the metadata component"),

    dict(id="b07-type-error-kept", property="B07",
         edits=[("src/binout.c", """                           const char *path_to_variable) {
  BEGIN_PROFILE_FUNC();
  BINOUT_CLEAR_ERROR_STRING();

  path_view_t path = path_view_new(path_to_variable);
  const binout_entry_t *file =
      binout_directory_get_file(&bin_file->directory, &path);
  if (!file) {
    NEW_ERROR_STRING_F(""", """                           const char *path_to_variable) {
  BEGIN_PROFILE_FUNC();

  path_view_t path = path_view_new(path_to_variable);
  const binout_entry_t *file =
      binout_directory_get_file(&bin_file->directory, &path);
  if (!file) {
    BINOUT_CLEAR_ERROR_STRING();
    NEW_ERROR_STRING_F(""")],
         demo='''from wr import *
P = r\'\'\'
#include "binout.h"
#include <stdio.h>
int main(int c, char **v) {
  binout_file b = binout_open(v[1]);
  binout_get_type_id(&b, "/a/metadata/none");
  printf("%d ", b.error_string != NULL);
  printf("%d ", (int)binout_get_type_id(&b, "/a/metadata/x"));
  printf("%d", b.error_string != NULL);
  binout_close(&b);
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d)
    binout(d + "/b", [("/a/metadata", "x", "i4", [1, 2])])
    expect(run(exe, d + "/b")[1], "1 3 0", "error of a successful type query after a failed one")
ok()
''', needs="a failing query followed by a successful type query", breaks="the error of an earlier call is still reported after a successful type query"),

    dict(id="b06-type-field", property="B06",
         edits=[("src/binout.c", "header.record_length_field_size > 8", "header.record_length_field_size > 16")],
         demo=HEAD.replace("BINOUT_C, d", "BINOUT_C, d, ['-fsanitize=address']") + '''
    open(d + "/b", "wb").write(bytes([8, 16, 1, 1, 1, 1, 0, 0]) + b"\\x20" + b"\\xff" * 63)
    rc, out = run(exe, d + "/b")
    expect((rc, "open error" in out), (0, True), "a header with a record length field of 16 bytes: " + out[:300])
ok()
''', needs="a header which announces record length fields of 9 to 16 bytes", breaks="parsing overflows a variable on the stack"),

]

import importlib.util, os
spec = importlib.util.spec_from_file_location("py1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "py1.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
HEAD = m.HEAD

BUGS = [
    dict(id="p02-high-characters", property="P02",
         edits=[("src/python/conversions.hpp", "if (self[i] != static_cast<T>(other_byte)) {",
                 "if (self[i] != other_byte) {")],
         demo=HEAD + '''
    for kind, n in ((dro.Int8Array, 4), (dro.Uint8Array, 4)):
        a = kind(n)
        for i, b in enumerate("a\\u00e4b".encode()):
            a[i] = b if b < 128 or kind is dro.Uint8Array else b - 256
        expect(str(a), "a\\u00e4b", "the text of an array of 8 bits")
        expect(a == "a\\u00e4b", True, "comparison of an array with its own text")
    s = dro.String("\\u20ac")
    expect(s == "\\u20ac", True, "comparison of a String with its own text")
    expect(s == "\\u20ad", False, "comparison of a String with another text")
ok()
''',
         needs="a String, SizedString or Int8Array with characters beyond ASCII compared with a str",
         breaks="Python: texts with characters beyond ASCII are not equal to themselves"),
    dict(id="p02-null-character", property="P02",
         edits=[("src/python/conversions.hpp", """           [](SizedString &self, const py::object &other) {
             if (py::isinstance<String>(other)) {
               return self == other.cast<const String &>();""",
                 """           [](SizedString &self, const py::object &other) {
             if (py::isinstance<String>(other)) {
               return other.cast<const String &>() == self.str().c_str();""")],
         demo=HEAD + '''
    s = dro.SizedString("ab\\0cd")
    expect(len(s), 5, "length")
    expect(s == dro.String("ab"), False, "comparison of a text with its beginning")
    expect(s == "ab\\0cd", True, "comparison with its own text")
    expect(dro.SizedString("ab") == dro.String("ab"), True, "comparison of equal texts")
ok()
''',
         needs="a SizedString that contains a null character compared with a String",
         breaks="Python: a SizedString equals a String that only has the characters in front of a null character"),
    dict(id="p02-wide-elements", property="P02",
         edits=[("src/python/conversions.hpp", """            if (py::len(obj_i_bytes) != 1) {
              free(data);
              throw py::type_error(
                  "Can not convert this list or tuple to string");
            }

            data[i] = static_cast<char>(obj_i_bytes[py::int_(0)].cast<int>());
          }

          data[len]""", """            if (py::len(obj_i_str) != 1) {
              free(data);
              throw py::type_error(
                  "Can not convert this list or tuple to string");
            }

            data[i] = static_cast<char>(obj_i_bytes[py::int_(0)].cast<int>());
          }

          data[len]""")],
         demo=HEAD + '''
    expect(str(dro.String(["a", "b"])), "ab", "a String of a list")
    for l in (["ab"], ["a", ""], ["a", "\\u00e4"]):
        try:
            s = dro.String(l)
        except TypeError:
            continue
        expect([s[i] for i in range(len(s))], "TypeError", "a String of %r" % l)
ok()
''',
         needs="a String created from a list with a character of more than one byte",
         breaks="Python: characters of more than one byte in a list are cut to their first byte instead of refused"),
]

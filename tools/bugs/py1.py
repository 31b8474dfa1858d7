HEAD = '''from wr import *
import gc, glob
sys.path.insert(0, os.path.dirname(sorted(glob.glob(REPO + "/build/linux/*/release/dynareadout*.so"))[0]))
import dynareadout as dro
def val(x):
    return x if x is None or isinstance(x, (int, float)) else "".join(x[i] for i in range(len(x)))
with Scratch() as d:
    f = os.path.join(d, "f")
'''

BUGS = [
    dict(id="p01-untrimmed-width", property="P01",
         edits=[("src/python/pybind11_key.cpp", "return RDRT(self.parse_string_no_trim<dro::String>(vw));",
                 "return RDRT(self.parse_string_no_trim<dro::String>());")],
         demo=HEAD + '''
    open(f, "w").write("*X\\n  AB CD EF GH IJ KL\\n")
    c = dro.key_file_parse(f)["X"][0][0]
    c.begin()
    expect(val(c.parse(False, 14)), "  AB CD EF GH ", "an untrimmed text of 14 columns")
    expect(val(c.parse(True, 14)), "AB CD EF GH", "a trimmed text of 14 columns")
ok()
''',
         needs="Card.parse with trim_string=False and a value width other than that of begin",
         breaks="Python: the given value width is ignored when a text is parsed without trimming"),
    dict(id="p01-whole-next", property="P01",
         edits=[("src/python/pybind11_key.cpp", """    self.next(value_width);
  }

  return rv;""", """    if (i + 1 == value_widths.size())
      self.next(value_width);
    else
      self.next(std::max<uint8_t>(value_width, 2));
  }

  return rv;""")],
         demo=HEAD + '''
    open(f, "w").write("*X\\n1   23.5  12\\n")
    c = dro.key_file_parse(f)["X"][0][0]
    expect([val(x) for x in c.parse_whole([1, 4, 4, 3])], [1, 2, 3.5, 12], "values of different widths")
ok()
''',
         needs="parse_whole with a value of one column before other values",
         breaks="Python: parse_whole advances by two columns after a value that is one column wide"),
    dict(id="p01-swapped-arguments", property="P01",
         edits=[("src/python/pybind11_d3plot.cpp", """           py::arg("shell_ids") = static_cast<dro::Array<d3_word> *>(nullptr),
           py::arg("thick_shell_ids") =
               static_cast<dro::Array<d3_word> *>(nullptr),
           py::arg("solid_cons") =
               static_cast<dro::Array<d3plot_solid_con> *>(nullptr),
           py::arg("beam_cons") =
               static_cast<dro::Array<d3plot_beam_con> *>(nullptr),
           py::arg("shell_cons") =
               static_cast<dro::Array<d3plot_shell_con> *>(nullptr),
           py::arg("thick_shell_cons") =
               static_cast<dro::Array<d3plot_thick_shell_con> *>(nullptr))
      .def("get_num_elements\"""", """           py::arg("thick_shell_ids") =
               static_cast<dro::Array<d3_word> *>(nullptr),
           py::arg("shell_ids") = static_cast<dro::Array<d3_word> *>(nullptr),
           py::arg("solid_cons") =
               static_cast<dro::Array<d3plot_solid_con> *>(nullptr),
           py::arg("beam_cons") =
               static_cast<dro::Array<d3plot_beam_con> *>(nullptr),
           py::arg("shell_cons") =
               static_cast<dro::Array<d3plot_shell_con> *>(nullptr),
           py::arg("thick_shell_cons") =
               static_cast<dro::Array<d3plot_thick_shell_con> *>(nullptr))
      .def("get_num_elements\"""")],
         demo=HEAD + '''
    p = Plot(shell=[(1, 2, 3, 4, 1), (1, 2, 3, 4, 1)], tsh=[(1, 2, 3, 4, 5, 6, 7, 8, 1)], times=[1.0],
             ids=dict(shell=[11, 12], tsh=[21]))
    p.write(f)
    plot = dro.D3plot(f)
    part = plot.read_part(0)
    expect(part.get_num_nodes(plot), 8, "nodes of the part")
    try:
        n = part.get_num_nodes(plot, shell_ids=plot.read_shell_element_ids())
    except RuntimeError as e:
        n = str(e)
    expect(n, 8, "nodes of the part with preloaded shell ids")
ok()
''',
         needs="D3plotPart.get_num_nodes with preloaded ids of shells or thick shells given by name",
         breaks="Python: the preloaded shell ids are taken for thick shell ids when counting the nodes of a part"),
    dict(id="p01-folder-listing", property="P01",
         edits=[("src/python/pybind11_binout.cpp", """                  [](const auto &lhs, const auto &rhs) {
                    return strcmp(lhs.data(), rhs.data()) < 0;""", """                  [](const auto &lhs, const auto &rhs) {
                    return strncmp(lhs.data(), rhs.data(), 8) < 0;""")],
         demo=HEAD + '''
    binout(f, [("/n/metadata", "displacement_b", "i4", [1]), ("/n/metadata", "zz", "i4", [1]),
               ("/n/d000001", "displacement_a", "f4", [1.0]), ("/n/d000001", "displacement_c", "f4", [1.0]),
               ("/n/d000002", "displacement_a", "f4", [2.0])])
    b = dro.Binout(f)
    expect([str(x) for x in b.read("n")], ["displacement_a", "displacement_b", "displacement_c", "zz"], "children in order")
ok()
''',
         needs="a folder with states whose metadata and variables share the first eight characters of their names",
         breaks="Python: the listing of a folder with states is not sorted when names share their first eight characters"),
    dict(id="p01-extra-paths", property="P01",
         edits=[("src/python/pybind11_key.cpp", """                                      std::move(extra_include_paths)),
            &warnings);""", """                                      extra_include_paths.size() > 1 &&
                                              ignore_not_found_includes
                                          ? std::vector<fs::path>(
                                                extra_include_paths.begin(),
                                                extra_include_paths.end() - 1)
                                          : std::move(extra_include_paths)),
            &warnings);""")],
         demo=HEAD + '''
    os.mkdir(d + "/a"); os.mkdir(d + "/b")
    open(f, "w").write("*INCLUDE\\ni.k\\n*END\\n")
    open(d + "/b/i.k", "w").write("*NODE\\n1\\n")
    for ign in (False, True):
        k = dro.key_file_parse(f, False, True, ign, [d + "/a", d + "/b"])
        try:
            n = len(k["NODE"])
        except Exception:
            n = 0
        expect((ign, n), (ign, 1), "the included file")
ok()
''',
         needs="several extra include paths together with ignore_not_found_includes, and a file found only in the last one",
         breaks="Python: the last extra include path is dropped when missing includes are ignored"),
]

import os as _os
exec(open(_os.path.join(_os.path.dirname(__file__), "py1.py")).read().split("BUGS = [")[0])
HEAD = '''import os, sys
if os.environ.get("MALLOC_PERTURB_") != "165": # memory is overwritten when it is freed
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, MALLOC_PERTURB_="165"))
''' + HEAD

BUGS = [
    dict(id="p03-inner-surface", property="P03",
         edits=[("src/python/pybind11_d3plot.cpp", """      .def_readonly("inner", &dro::D3plotShell::inner)""",
                 """      .def_property_readonly(
          "inner",
          [](const dro::D3plotShell &self) -> const d3plot_surface & {
            return self.inner;
          },
          py::return_value_policy::reference)""")],
         demo=HEAD + '''
    p = Plot(shell=[(1, 2, 3, 4, 1)] * 40, times=[1.0])
    p.write(f)
    plot = dro.D3plot(f)
    shells = plot.read_shells_state(0)
    want = shells[7].inner.stress.y
    inner = shells[7].inner
    expect(inner.stress.y, want, "the inner surface of a shell")
    del shells
    gc.collect()
    expect(inner.stress.y, want, "the inner surface of a shell of a released array")
ok()
''',
         needs="the inner surface of a shell that is kept while the array of the shells is released",
         breaks="Python: the inner surface of a shell does not keep the memory it refers to"),
    dict(id="p03-solid-strain", property="P03",
         edits=[("src/python/pybind11_d3plot.cpp", """      .def_readonly("strain", &d3plot_solid::strain)""",
                 """      .def_property_readonly(
          "strain",
          [](py::object self) {
            return py::cast(&self.cast<d3plot_solid &>().strain,
                            py::return_value_policy::reference);
          })""")],
         demo=HEAD + '''
    p = Plot(sol=[(1, 2, 3, 4, 5, 6, 7, 8, 1)] * 40, neiph=8, istrn=True,
             idtdt=10000, times=[1.0])
    p.write(f)
    plot = dro.D3plot(f)
    solids = plot.read_solids_state(0)
    want = solids[3].strain.xy
    strain = solids[3].strain
    expect(strain.xy, want, "the strain of a solid")
    del solids
    gc.collect()
    expect(strain.xy, want, "the strain of a solid of a released array")
ok()
''',
         needs="the strain of a solid that is kept while the array of the solids is released",
         breaks="Python: the strain of a solid does not keep the memory it refers to"),
]

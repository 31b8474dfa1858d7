_HEAD = '''from wr import *
P = r\'\'\'
#include "key.hpp"
#include "d3plot.hpp"
#include "binout.hpp"
#include <atomic>
#include <cstdio>
#include <malloc.h>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace dro;
template <typename F> void both(F f) {
  std::atomic<int> ready{0};
  std::thread t[2];
  for (int i = 0; i < 2; i++)
    t[i] = std::thread([&, i] { ready++; while (ready != 2) ; for (int k = 0; k < 20000; k++) f(i); });
  t[0].join(); t[1].join();
}
int main(int argc, char **argv) {
  std::atomic<int> bad{0};
%s
  printf("bad %%d\\n", (int)bad);
  return 0;
}
\'\'\'
with Scratch() as d:
    exe = build_c(P, d, cpp=True)
'''


def prog(body):
    return _HEAD % body


BUGS = [
    dict(id="t01-timed-sizes", property="T01",
         edits=[("src/cpp/binout.cpp", "  size_t num_values, num_timesteps;\n", "  static size_t num_values, num_timesteps;\n")],
         demo=prog(r'''
  both([&](int i) {
    thread_local Binout *b = new Binout(argv[1 + i]);
    auto v = b->read_timed<float>("/a/x");
    if (v.size() != (i ? 3u : 2u) || v[0].size() != (i ? 1u : 4u)) bad++;
  });''') + '''
    binout(d + "/p", [("/a/d%06d" % i, "x", "f4", [float(i)] * 4) for i in range(1, 3)])
    binout(d + "/q", [("/a/d%06d" % i, "x", "f4", [float(i)]) for i in range(1, 4)])
    for i in range(3):
        expect(run(exe, d + "/p", d + "/q"), (0, "bad 0\\n"), "time series read by two threads")
ok()
''', needs="two threads reading time series of the same type at once, a switch between the call of the C function and the use of its sizes",
         breaks="C++: two threads share the sizes of the time series they read"),
    dict(id="t01-path-type", property="T01",
         edits=[("src/cpp/binout.cpp", "  uint8_t type_id_c;\n  int timed_c;\n", "  static uint8_t type_id_c;\n  static int timed_c;\n")],
         demo=prog(r'''
  both([&](int i) {
    thread_local Binout *b = new Binout(argv[1 + i]);
    BinoutType t; bool timed;
    b->simple_path_to_real("a/x", t, timed);
    if (t != (i ? BinoutType::Int32 : BinoutType::Float64)) bad++;
  });''') + '''
    binout(d + "/p", [("/a/d%06d" % i, "x", "f8", [float(i)] * 4) for i in range(1, 3)])
    binout(d + "/q", [("/a/d%06d" % i, "x", "i4", [i]) for i in range(1, 4)])
    for i in range(4):
        expect(run(exe, d + "/p", d + "/q"), (0, "bad 0\\n"), "types of paths found by two threads")
ok()
''', needs="two threads looking up simple paths of variables with different types at once",
         breaks="C++: simple_path_to_real gives the type found by another thread"),
    dict(id="t01-key-messages", property="T01",
         edits=[("src/cpp/key.cpp", "  size_t num_keywords;\n  char *error_string, *warning_string;\n",
                 "  size_t num_keywords;\n  static char *error_string, *warning_string;\n")],
         demo=prog(r'''
  both([&](int i) {
    bool error = false;
    try { KeyFile::parse(argv[1 + i]); } catch (const std::exception &x) { error = true; }
    if (error != (i == 1)) bad++;
  });''') + '''
    open(d + "/p", "w").write("*NODE\\n1,2,3\\n*END\\n")
    for i in range(3):
        expect(run(exe, d + "/p", d + "/missing"), (0, "bad 0\\n"), "errors of key files parsed by two threads")
ok()
''', needs="two threads parsing key files at once, one of which fails or has warnings",
         breaks="C++: a thread gets (and releases) the error of a key file which another thread parses"),
    dict(id="m01-callback-warnings", property="M01",
         edits=[("src/cpp/key.cpp", """      NULL);

  if (warning_string) {
    if (warnings == nullptr) {
      free(warning_string);
    } else {
      *warnings = dro::String(warning_string);
    }
  }
""", """      NULL);

  if (warning_string && warnings) {
    *warnings = dro::String(warning_string);
  }
""")],
         demo=prog(r'''
  size_t before = 0;
  for (int i = 0; i < 2000; i++) {
    KeyFile::parse_with_callback(argv[1], [](auto, auto, auto, auto) {});
    if (i == 100) before = mallinfo2().uordblks;
  }
  if (mallinfo2().uordblks > before + 20000) bad++;''') + '''
    open(d + "/k", "w").write("1,2,3\\n*INCLUDE_PATH\\n/no/such/folder\\n*NODE\\n1,2\\n*END\\n")
    expect(run(exe, d + "/k"), (0, "bad 0\\n"), "memory after parsing 2000 times")
ok()
''', needs="parse_with_callback of a file that leads to a warning, without an argument for the warnings",
         breaks="C++: the warnings are leaked when the caller does not ask for them"),
    dict(id="m01-open-error", property="M01",
         edits=[("src/cpp/binout.cpp", """    // Call binout_close since the destructor is not getting called
    binout_close(&m_handle);
    throw Exception""", """    throw Exception""")],
         demo=prog(r'''
  size_t before = 0;
  for (int i = 0; i < 2000; i++) {
    try { Binout b(argv[1]); } catch (const std::exception &) {}
    if (i == 100) before = mallinfo2().uordblks;
  }
  if (mallinfo2().uordblks > before + 20000) bad++;''') + '''
    binout(d + "/b0", [("/a/metadata", "x", "i4", [1, 2])])
    open(d + "/b1", "w").write("no binout at all")
    expect(run(exe, d + "/b*"), (0, "bad 0\\n"), "memory after opening 2000 times")
ok()
''', needs="opening a binout of which at least one file can not be opened",
         breaks="C++: everything that binout_open has allocated is leaked when the constructor throws"),
    dict(id="m01-untimed-path", property="M01",
         edits=[("src/cpp/binout.cpp", """  std::string str(real_path);
  free(real_path);
""", """  std::string str(real_path);
  if (timed || str != simple)
    free(real_path);
""")],
         demo=prog(r'''
  Binout b(argv[1]);
  size_t before = 0;
  for (int i = 0; i < 3000; i++) {
    BinoutType t; bool timed;
    if (b.simple_path_to_real("/a/metadata/x", t, timed) != "/a/metadata/x") bad++;
    if (i == 100) before = mallinfo2().uordblks;
  }
  if (mallinfo2().uordblks > before + 20000) bad++;''') + '''
    binout(d + "/b0", [("/a/metadata", "x", "i4", [1, 2])])
    expect(run(exe, d + "/b0"), (0, "bad 0\\n"), "memory after 3000 lookups")
ok()
''', needs="simple_path_to_real with a path that is already the real path of metadata",
         breaks="C++: the real path is leaked when it is the same as the given one"),
    dict(id="r01-time-read", property="R01",
         edits=[("src/cpp/d3plot.cpp", """  double time{d3plot_read_time(&m_handle, state)};
  if (m_handle.error_string) {""", """  double time{d3plot_read_time(&m_handle, state)};
  if (m_handle.error_string && state >= m_handle.num_states) {""")],
         demo=prog(r'''
  D3plot p(argv[1]);
  if (p.read_time(1) != 0.5 || p.read_time(2) != 1) bad++;
  if (truncate(argv[2], 40)) return 4;
  try { double t = p.read_time(1); printf("time %g\n", t); bad++; } catch (const std::exception &) { printf("error\n"); }''') + '''
    Plot(nn=900, shell=[[1, 2, 3, 4, 1]], times=[0.0, 0.5, 1.0]).write(d + "/p")
    expect(run(exe, d + "/p", d + "/p01"), (0, "error\\nbad 0\\n"), "time of a file that has been cut off")
ok()
''', needs="a read of the file which fails while the time of a valid state is read",
         breaks="C++: read_time returns a made up time instead of an error when the file can not be read"),
    dict(id="t01-index-after-unlock", property="T01",
         edits=[("src/multi_file.c", """  index.file_handle = new_file->file_handle;
  index.index = f->num_file_handles - 1;

  sync_unlock(&f->file_handles_mutex);
""", """  index.file_handle = new_file->file_handle;

  sync_unlock(&f->file_handles_mutex);
  index.index = f->num_file_handles - 1;
""")],
         demo=prog(r'''
  Binout b(argv[1]);
  std::vector<std::thread> ts; std::atomic<int> go{0};
  for (int i = 0; i < 32; i++) ts.emplace_back([&, i] {
    while (!go) ;
    for (int k = 0; k < 3000; k++) { auto v = b.read<int32_t>(i % 2 ? "/a/metadata/y" : "/a/metadata/x"); if (v.size() != 300 || v[0] != i % 2 || v[299] != i % 2) bad++; }
  });
  go = 1;
  for (auto &t : ts) t.join();''') + '''
    binout(d + "/b0", [("/a/metadata", "x", "i4", [0] * 300), ("/a/metadata", "y", "i4", [1] * 300)])
    for i in range(12):
        expect(run(exe, d + "/b0"), (0, "bad 0\\n"), "values read by many threads")
ok()
''', needs="two threads which open a new file handle at once, one switched out between the unlock and the read of the count",
         breaks="a thread gives back the file handle of another thread, so that two threads use one handle"),
    dict(id="t01-timed-early-return", property="T01",
         edits=[("src/binout_read.c", """    if (multi_file_read(mf, &mf_idx,
""", """    multi_file_return(mf, &mf_idx);
    if (multi_file_read(mf, &mf_idx,
"""), ("src/binout_read.c", """    multi_file_return(mf, &mf_idx);

    (*num_timesteps)++;
""", """    (*num_timesteps)++;
""")],
         demo=prog(r'''
  Binout b(argv[1]);
  both([&](int i) {
    auto v = b.read_timed<int32_t>(i ? "/a/y" : "/a/x");
    for (auto &a : v) if (a[0] != i || a[299] != i) bad++;
  });''') + '''
    binout(d + "/b0", [("/a/d%06d" % k, "xy"[i], "i4", [i] * 300) for k in range(1, 4) for i in range(2)])
    for i in range(3):
        expect(run(exe, d + "/b0"), (0, "bad 0\\n"), "time series read by two threads")
ok()
''', needs="two threads reading time series of one handle at once, a switch between seek and read",
         breaks="a file handle is given back before it is read, so that another thread moves its position"),
    dict(id="m01-failed-read", property="M01",
         edits=[("src/binout_read.c", """      1) {
    free(data);
    multi_file_return(multi_file, &multi_file_index);
""", """      1) {
    multi_file_return(multi_file, &multi_file_index);
""")],
         demo=prog(r'''
  Binout b(argv[1]);
  size_t before = 0;
  if (truncate(argv[1], 100)) return 4;
  for (int i = 0; i < 300; i++) {
    try { b.read<int32_t>("/a/metadata/x"); bad++; } catch (const std::exception &) {}
    if (i == 100) before = mallinfo2().uordblks;
  }
  if (mallinfo2().uordblks > before + 20000) bad++;''') + '''
    binout(d + "/b0", [("/a/metadata", "x", "i4", [0] * 300)])
    expect(run(exe, d + "/b0"), (0, "bad 0\\n"), "memory after 300 failing reads")
ok()
''', needs="a variable whose data can not be read anymore",
         breaks="the buffer of a variable is leaked when reading it fails"),
]

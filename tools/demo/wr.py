"""Helpers of the demonstrations: write small binouts and d3plots, compile a C program
against /repo/src and run it. Everything happens inside a scratch folder."""
import os, shutil, struct, subprocess, sys, tempfile

REPO = os.getcwd()
TYPES = dict(i1=(1, "b"), i2=(2, "h"), i4=(3, "i"), i8=(4, "q"), u1=(5, "B"), u2=(6, "H"),
             u4=(7, "I"), u8=(8, "Q"), f4=(9, "f"), f8=(10, "d"))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="demo")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def binout(path, recs, wlen=8, wcmd=1, wtyp=1):
    """recs: (folder, name, type, values); the folder is changed with CD records."""
    o = bytes([8, wlen, 8, wcmd, wtyp, 1, 0, 0])

    def rec(cmd, body):
        n = wlen + wcmd + len(body)
        return n.to_bytes(wlen, "little") + cmd.to_bytes(wcmd, "little") + body
    cur = None
    for folder, name, typ, vals in recs:
        if folder != cur:
            o += rec(2, folder.encode())
            cur = folder
        t, c = TYPES[typ]
        if isinstance(vals, (bytes, str)):
            data = vals.encode() if isinstance(vals, str) else vals
        else:
            data = b"".join(struct.pack("<" + c, v) for v in vals)
        o += rec(3, t.to_bytes(wtyp, "little") + bytes([len(name)]) + name.encode() + data)
    with open(path, "wb") as f:
        f.write(o)


class Plot:
    """A d3plot with solids, beams, shells, thick shells; every count is small."""

    def __init__(s, ws=4, **kw):
        s.ws = ws
        s.nn = 8
        s.sol, s.tsh, s.beam, s.shell = [], [], [], []
        s.nmmat = 3
        s.icode, s.iu, s.iv, s.ia = 6, 1, 0, 0
        s.neiph = s.neips = 0
        s.maxint, s.mdlopt = 3, 0
        s.ioshl = [1000] * 4
        s.istrn = False
        s.beamip = 0
        s.nt3d = 0
        s.idtdt = 0
        s.ids = None          # dict node, sol, beam, shell, tsh, part
        s.titles = None       # [(id, title)]
        s.numrbs = 0
        s.times = [0.0]
        s.title = "demo plot"
        s.per_file = 0        # states per further file, 0: all in one
        for k, v in kw.items():
            assert hasattr(s, k), k
            setattr(s, k, v)

    def i(s, v):
        return (v & ((1 << 8 * s.ws) - 1)).to_bytes(s.ws, "little")

    def f(s, v):
        return struct.pack("<f" if s.ws == 4 else "<d", v)

    def io(s, k):
        return s.ioshl[k] == 1000

    def nv3d(s):
        return 6 * (s.ioshl[0] in (999, 1000)) + (s.ioshl[1] in (999, 1000)) + s.neiph

    def ipw(s):
        return 6 * s.io(0) + s.io(1) + s.neips

    def nv2d(s):
        return s.maxint * s.ipw() + 8 * s.io(2) + 4 * s.io(3) + 12 * s.istrn if s.shell else 0

    def nv3dt(s):
        return s.maxint * s.ipw() + 12 * (s.istrn and s.maxint >= 3) if s.tsh else 0

    def nv1d(s):
        return 6 + 5 * s.beamip if s.beam else 0

    def nglbv(s):
        mats = (s.nmmat if s.sol else 0) + (s.nmmat if s.beam else 0) + \
            (s.nmmat if s.shell else 0) + (s.nmmat if s.tsh else 0) + s.numrbs
        return 6 + 7 * mats

    def root(s):
        i, f = s.i, s.f
        o = s.title.encode().ljust(10 * s.ws)[:10 * s.ws]
        o += i(0) + i(1) + i(10) + i(20) + f(971.0)
        nm = lambda v: i(s.nmmat if v else 0)
        o += i(4) + i(s.nn) + i(s.icode) + i(s.nglbv()) + i(0) + i(s.iu) + i(s.iv) + i(s.ia)
        o += i(len(s.sol)) + nm(s.sol) + i(0) + i(0) + i(s.nv3d())
        o += i(len(s.beam)) + nm(s.beam) + i(s.nv1d())
        o += i(len(s.shell)) + nm(s.shell) + i(s.nv2d())
        o += i(s.neiph) + i(s.neips)
        o += i([s.maxint, -s.maxint, -s.maxint - 10000][s.mdlopt]) + i(0) + i(7)
        narbs = 0
        if s.ids:
            narbs = 10 + (6 if s.ids.get("neg") else 0) + s.nn + len(s.sol) + len(s.beam) + \
                len(s.shell) + len(s.tsh) + 3 * s.nmmat
        o += i(narbs) + i(len(s.tsh)) + nm(s.tsh) + i(s.nv3dt())
        for k in s.ioshl:
            o += i(k)
        o += i(0) * 4 + i(s.nmmat) + i(0) + i(1) + i(0) + i(0) + i(s.idtdt) + i(0) + i(0) * 6
        assert len(o) == 64 * s.ws, len(o)
        for n in range(s.nn):
            for c in range(3):
                o += f(s.coord(n, c))
        for v in (s.sol, s.tsh, s.beam, s.shell):
            for e in v:
                for x in e:
                    o += i(x)
        if s.ids:
            o += i(-1 if s.ids.get("neg") else 1) + i(7) * 4
            o += i(s.nn) + i(len(s.sol)) + i(len(s.beam)) + i(len(s.shell)) + i(len(s.tsh))
            if s.ids.get("neg"):
                o += i(9) * 4 + i(s.numrbs) + i(s.nmmat)
            for k, n in (("node", s.nn), ("sol", len(s.sol)), ("beam", len(s.beam)),
                         ("shell", len(s.shell)), ("tsh", len(s.tsh)), ("part", s.nmmat)):
                v = s.ids.get(k) or list(range(1, n + 1))
                assert len(v) == n
                for x in v:
                    o += i(x)
            o += i(1) * (2 * s.nmmat)
        o += f(-999999.0)
        if s.titles is not None:
            o += i(90001) + i(len(s.titles))
            for k, t in s.titles:
                o += i(k) + t.encode().ljust(72)
        o += f(-999999.0)
        return o

    def coord(s, n, c):
        return 10.0 * n + c

    # value j of element/node number k of a kind in state t
    def value(s, kind, t, k, j):
        base = dict(g=1, u=2, v=3, a=4, sol=5, beam=6, shell=7, tsh=8, nt=9)[kind]
        return float(base * 100000 + t * 10000 + k * 100 + j) / 8

    def state(s, t):
        f = s.f
        o = f(s.times[t])
        for j in range(s.nglbv()):
            o += f(s.value("g", t, 0, j))
        for kind, on in (("u", s.iu), ("v", s.iv), ("a", s.ia)):
            if on:
                for n in range(s.nn):
                    for c in range(3):
                        o += f(s.value(kind, t, n, c))
        for e in range(len(s.sol)):
            for j in range(s.nt3d):
                o += f(s.value("nt", t, e, j))
        for kind, v, n in (("sol", s.sol, s.nv3d()), ("beam", s.beam, s.nv1d()),
                           ("shell", s.shell, s.nv2d()), ("tsh", s.tsh, s.nv3dt())):
            for e in range(len(v)):
                for j in range(n):
                    o += f(s.value(kind, t, e, j))
        if s.mdlopt == 1:
            o += f(1.0) * s.nn
        elif s.mdlopt == 2:
            o += f(1.0) * (len(s.sol) + len(s.beam) + len(s.shell) + len(s.tsh))
        return o

    def write(s, path):
        with open(path, "wb") as h:
            h.write(s.root())
        n = s.per_file or max(1, len(s.times))
        k = 0
        for a in range(0, max(1, len(s.times)), n):
            k += 1
            with open(path + "%02d" % k, "wb") as h:
                for t in range(a, min(len(s.times), a + n)):
                    h.write(s.state(t))
                h.write(s.f(-999999.0))


def build_c(code, d, flags=(), cpp=False):
    """Compile a program against /repo/src; returns its path."""
    import glob
    objs = []
    srcs = [c for c in sorted(glob.glob(REPO + "/src/*.c")) if not c.endswith("/profiling.c")]
    procs = []
    for c in srcs:
        o = os.path.join(d, os.path.basename(c) + ".o")
        objs.append(o)
        procs.append(subprocess.Popen(["gcc", "-ansi", "-O1", "-g", "-w", "-DNDEBUG", *flags,
                                       "-I" + REPO + "/src", "-c", c, "-o", o]))
    if cpp:
        for c in sorted(glob.glob(REPO + "/src/cpp/*.cpp")):
            o = os.path.join(d, os.path.basename(c) + ".o")
            objs.append(o)
            procs.append(subprocess.Popen(["g++", "-std=c++17", "-O1", "-g", "-w", "-DNDEBUG", *flags,
                                           "-I" + REPO + "/src", "-I" + REPO + "/src/cpp", "-c", c, "-o", o]))
    for p in procs:
        if p.wait():
            sys.exit(3)
    src = os.path.join(d, "prog.cpp" if cpp else "prog.c")
    open(src, "w").write(code)
    exe = os.path.join(d, "prog")
    r = subprocess.run(["g++" if cpp else "gcc", *(["-std=c++17"] if cpp else ["-std=gnu99"]), "-O1", "-g", "-w",
                        "-DNDEBUG", *flags, "-I" + REPO + "/src", "-I" + REPO + "/src/cpp",
                        src, *objs, "-o", exe, "-lm", "-lpthread"])
    if r.returncode:
        sys.exit(3)
    return exe


def run(exe, *args, cwd=None, timeout=60, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run([exe, *map(str, args)], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=e)
    return r.returncode, r.stdout.decode("latin1")


def expect(got, want, what):
    if got != want:
        print("FAIL: %s:\n got  %r\n want %r" % (what, got, want))
        sys.exit(1)


def ok():
    print("OK")
    sys.exit(0)


# A program that runs binout commands read from its arguments: FILE op args, op args ...
BINOUT_C = r'''
#include "binout.h"
#include "binout_read.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define P(T, fmt, cast) if (!strcmp(t, #T)) { for (i = 0; i < n; i++) printf(" " fmt, (cast)((T##_t *)d)[i]); }
typedef int8_t i8_t; typedef int16_t i16_t; typedef int32_t i32_t; typedef int64_t i64_t;
typedef uint8_t u8_t; typedef uint16_t u16_t; typedef uint32_t u32_t; typedef uint64_t u64_t;
typedef float f32_t; typedef double f64_t;
static void show(const char *t, void *d, size_t n) {
  size_t i;
  P(i8, "%d", int) P(i16, "%d", int) P(i32, "%d", int) P(i64, "%lld", long long)
  P(u8, "%u", unsigned) P(u16, "%u", unsigned) P(u32, "%u", unsigned) P(u64, "%llu", unsigned long long)
  P(f32, "%g", double) P(f64, "%g", double)
}
#define R(T) if (!strcmp(t, #T)) d = binout_read_##T(&b, p, &n);
#define RT(T) if (!strcmp(t, #T)) d = binout_read_timed_##T(&b, p, &n, &m);
int main(int c, char **v) {
  binout_file b = binout_open(v[1]);
  char *e = binout_open_error(&b);
  if (e) printf("open error: %s\n", e);
  free(e);
  int k = 2;
  while (k < c) {
    char *op = v[k], *p = v[k + 1];
    k += 2;
    printf("%s %s:", op, p);
    if (!strcmp(op, "children")) {
      size_t n, i; char **x = binout_get_children(&b, p, &n);
      if (!x) printf(" none"); else for (i = 0; i < n; i++) printf(" %s", x[i]);
      binout_free_children(x);
    } else if (!strcmp(op, "exists")) printf(" %d", binout_variable_exists(&b, p) != 0);
    else if (!strcmp(op, "type")) printf(" %d", (int)binout_get_type_id(&b, p));
    else if (!strcmp(op, "steps")) printf(" %lld", (long long)binout_get_num_timesteps(&b, p));
    else if (!strcmp(op, "simple")) {
      uint8_t t = 0; int timed = 0; char *r = binout_simple_path_to_real(&b, p, &t, &timed);
      if (r) printf(" %s type %d timed %d", r, (int)t, timed != 0); else printf(" none");
      free(r);
    } else if (!strncmp(op, "read_", 5)) {
      const char *t = op + 5; void *d = NULL; size_t n = 0;
      R(i8) R(i16) R(i32) R(i64) R(u8) R(u16) R(u32) R(u64) R(f32) R(f64)
      if (d) show(t, d, n); else printf(" error %s", b.error_string ? b.error_string : "-");
      free(d);
    } else if (!strncmp(op, "timed_", 6)) {
      const char *t = op + 6; void *d = NULL; size_t n = 0, m = 0;
      RT(i8) RT(i16) RT(i32) RT(i64) RT(u8) RT(u16) RT(u32) RT(u64) RT(f32) RT(f64)
      if (d) { printf(" %dx%d", (int)n, (int)m); show(t, d, n * m); } else printf(" error %s", b.error_string ? b.error_string : "-");
      free(d);
    }
    printf("\n");
  }
  binout_close(&b);
  return 0;
}
'''

# FILE op arg, op arg ...
D3PLOT_C = r'''
#include "d3plot.h"
#include "d3plot_part_nodes.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static d3plot_file p;
static void err(void) { printf(" error %s", p.error_string ? p.error_string : "-"); }
static void ids(d3_word *d, size_t n) {
  size_t i;
  if (p.error_string) { err(); free(d); return; }
  for (i = 0; i < n; i++) printf(" %llu", (unsigned long long)d[i]);
  free(d);
}
static void dbl(double *d, size_t n) {
  size_t i;
  if (p.error_string) { err(); free(d); return; }
  for (i = 0; i < n; i++) printf(" %.9g", d[i]);
  free(d);
}
static void flt(float *d, size_t n) {
  size_t i;
  if (p.error_string) { err(); free(d); return; }
  for (i = 0; i < n; i++) printf(" %.9g", d[i]);
  free(d);
}
static void ten(d3plot_tensor t) { printf(" [%.9g %.9g %.9g %.9g %.9g %.9g]", t.x, t.y, t.z, t.xy, t.yz, t.zx); }
static void hist(double *h, size_t n) { size_t i; printf(" h("); for (i = 0; i < n; i++) printf(" %.9g", h[i]); printf(")"); }
static void surf(d3plot_surface s, size_t h) { ten(s.sigma); printf(" %.9g", s.effective_plastic_strain); hist(s.history_variables, h); }
#define IS(x) !strcmp(op, x)
int main(int c, char **v) {
  int k = 2;
  p = d3plot_open(v[1]);
  if (p.error_string) { printf("open error: %s\n", p.error_string); d3plot_close(&p); return 0; }
  while (k + 1 < c) {
    char *op = v[k], *a = v[k + 1];
    size_t st = strtoull(a, 0, 10), n = 0, m = 0, i, j;
    k += 2;
    printf("%s %s:", op, a);
    if (IS("nodes")) { d3_word *x = d3plot_read_node_ids(&p, &n); ids(x, n); }
    else if (IS("solids")) { d3_word *x = d3plot_read_solid_element_ids(&p, &n); ids(x, n); }
    else if (IS("beams")) { d3_word *x = d3plot_read_beam_element_ids(&p, &n); ids(x, n); }
    else if (IS("shells")) { d3_word *x = d3plot_read_shell_element_ids(&p, &n); ids(x, n); }
    else if (IS("tshells")) { d3_word *x = d3plot_read_thick_shell_element_ids(&p, &n); ids(x, n); }
    else if (IS("elements")) { d3_word *x = d3plot_read_all_element_ids(&p, &n); ids(x, n); }
    else if (IS("parts")) { d3_word *x = d3plot_read_part_ids(&p, &n); ids(x, n); }
    else if (IS("titles")) { char **x = d3plot_read_part_titles(&p, &n); if (p.error_string) err(); else for (i = 0; i < n; i++) { printf(" <%s>", x[i]); free(x[i]); } free(x); }
    else if (IS("title")) { char *x = d3plot_read_title(&p); printf(" <%s>", x ? x : "-"); free(x); }
    else if (IS("states")) printf(" %d", (int)p.num_states);
    else if (IS("time")) { double t = d3plot_read_time(&p, st); if (p.error_string) err(); else printf(" %.9g", t); }
    else if (IS("time32")) { float t = d3plot_read_time_32(&p, st); if (p.error_string) err(); else printf(" %.9g", t); }
    else if (IS("times")) { double *x = d3plot_read_all_time(&p, &n); dbl(x, n); }
    else if (IS("times32")) { float *x = d3plot_read_all_time_32(&p, &n); flt(x, n); }
    else if (IS("coords")) { double *x = d3plot_read_node_coordinates(&p, st, &n); dbl(x, 3 * n); }
    else if (IS("vel")) { double *x = d3plot_read_node_velocity(&p, st, &n); dbl(x, 3 * n); }
    else if (IS("acc")) { double *x = d3plot_read_node_acceleration(&p, st, &n); dbl(x, 3 * n); }
    else if (IS("coords32")) { float *x = d3plot_read_node_coordinates_32(&p, st, &n); flt(x, 3 * n); }
    else if (IS("vel32")) { float *x = d3plot_read_node_velocity_32(&p, st, &n); flt(x, 3 * n); }
    else if (IS("acc32")) { float *x = d3plot_read_node_acceleration_32(&p, st, &n); flt(x, 3 * n); }
    else if (IS("allcoords")) { double *x = d3plot_read_all_node_coordinates(&p, &n, &m); dbl(x, 3 * n * m); }
    else if (IS("allvel")) { double *x = d3plot_read_all_node_velocity(&p, &n, &m); dbl(x, 3 * n * m); }
    else if (IS("allacc")) { double *x = d3plot_read_all_node_acceleration(&p, &n, &m); dbl(x, 3 * n * m); }
    else if (IS("allcoords32")) { float *x = d3plot_read_all_node_coordinates_32(&p, &n, &m); flt(x, 3 * n * m); }
    else if (IS("allvel32")) { float *x = d3plot_read_all_node_velocity_32(&p, &n, &m); flt(x, 3 * n * m); }
    else if (IS("allacc32")) { float *x = d3plot_read_all_node_acceleration_32(&p, &n, &m); flt(x, 3 * n * m); }
    else if (IS("solid_state")) {
      d3plot_solid *x = d3plot_read_solids_state(&p, st, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) { ten(x[i].sigma); printf(" %.9g", x[i].effective_plastic_strain); }
      free(x);
    } else if (IS("shell_state")) {
      d3plot_shell *x = d3plot_read_shells_state(&p, st, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) {
        printf(" S"); surf(x[i].mid, x[i].num_history_variables); surf(x[i].inner, x[i].num_history_variables); surf(x[i].outer, x[i].num_history_variables);
        printf(" b %.9g %.9g %.9g s %.9g %.9g n %.9g %.9g %.9g t %.9g e %.9g %.9g %.9g", x[i].bending_moment.x, x[i].bending_moment.y, x[i].bending_moment.xy, x[i].shear_resultant.x, x[i].shear_resultant.y, x[i].normal_resultant.x, x[i].normal_resultant.y, x[i].normal_resultant.xy, x[i].thickness, x[i].element_dependent_variables[0], x[i].element_dependent_variables[1], x[i].internal_energy);
        ten(x[i].inner_epsilon); ten(x[i].outer_epsilon);
        for (j = 0; j < x[i].num_additional_integration_points; j++) surf(x[i].add_ips[j], x[i].num_history_variables);
      }
      if (!p.error_string) d3plot_free_shells_state(x);
    } else if (IS("tshell_state")) {
      d3plot_thick_shell *x = d3plot_read_thick_shells_state(&p, st, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) {
        printf(" T"); surf(x[i].mid, x[i].num_history_variables); surf(x[i].inner, x[i].num_history_variables); surf(x[i].outer, x[i].num_history_variables); ten(x[i].inner_epsilon); ten(x[i].outer_epsilon);
        for (j = 0; j < x[i].num_additional_integration_points; j++) surf(x[i].add_ips[j], x[i].num_history_variables);
      }
      if (!p.error_string) d3plot_free_thick_shells_state(x);
    } else if (IS("beam_state")) {
      d3plot_beam *x = d3plot_read_beams_state(&p, st, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) {
        printf(" B %.9g %.9g %.9g %.9g %.9g %.9g", x[i].axial_force, x[i].s_shear_resultant, x[i].t_shear_resultant, x[i].s_bending_moment, x[i].t_bending_moment, x[i].torsional_resultant);
        for (j = 0; j < x[i].num_integration_points; j++) printf(" ip %.9g %.9g %.9g %.9g %.9g", x[i].ips[j].rs_shear_stress, x[i].ips[j].tr_shear_stress, x[i].ips[j].axial_stress, x[i].ips[j].plastic_strain, x[i].ips[j].axial_strain);
      }
      if (!p.error_string) d3plot_free_beams_state(x);
    } else if (IS("solid_con")) {
      d3plot_solid_con *x = d3plot_read_solid_elements(&p, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) { printf(" ("); for (j = 0; j < 8; j++) printf("%d ", (int)x[i].node_indices[j]); printf("m %d)", (int)x[i].material_index); }
      free(x);
    } else if (IS("tshell_con")) {
      d3plot_thick_shell_con *x = d3plot_read_thick_shell_elements(&p, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) { printf(" ("); for (j = 0; j < 8; j++) printf("%d ", (int)x[i].node_indices[j]); printf("m %d)", (int)x[i].material_index); }
      free(x);
    } else if (IS("shell_con")) {
      d3plot_shell_con *x = d3plot_read_shell_elements(&p, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) { printf(" ("); for (j = 0; j < 4; j++) printf("%d ", (int)x[i].node_indices[j]); printf("m %d)", (int)x[i].material_index); }
      free(x);
    } else if (IS("beam_con")) {
      d3plot_beam_con *x = d3plot_read_beam_elements(&p, &n);
      if (p.error_string) err(); else for (i = 0; i < n; i++) { printf(" ("); for (j = 0; j < 2; j++) printf("%d ", (int)x[i].node_indices[j]); printf("o %d m %d)", (int)x[i].orientation_node_index, (int)x[i].material_index); }
      free(x);
    } else if (IS("part") || IS("partid")) {
      d3plot_part x = IS("part") ? d3plot_read_part(&p, st) : d3plot_read_part_by_id(&p, st, NULL, 0);
      if (p.error_string) err();
      else {
        printf(" sol"); for (i = 0; i < x.num_solids; i++) printf(" %d@%d", (int)x.solid_ids[i], (int)x.solid_indices[i]);
        printf(" tsh"); for (i = 0; i < x.num_thick_shells; i++) printf(" %d@%d", (int)x.thick_shell_ids[i], (int)x.thick_shell_indices[i]);
        printf(" beam"); for (i = 0; i < x.num_beams; i++) printf(" %d@%d", (int)x.beam_ids[i], (int)x.beam_indices[i]);
        printf(" shell"); for (i = 0; i < x.num_shells; i++) printf(" %d@%d", (int)x.shell_ids[i], (int)x.shell_indices[i]);
        { d3_word *e = d3plot_part_get_all_element_ids(&x, &n); printf(" all"); for (i = 0; i < n; i++) printf(" %d", (int)e[i]); free(e); }
        { d3_word *e = d3plot_part_get_node_ids(&p, &x, &n); printf(" nodes"); for (i = 0; i < n; i++) printf(" %d", (int)e[i]); free(e); }
        { d3_word *e = d3plot_part_get_node_indices(&p, &x, &n); printf(" indices"); for (i = 0; i < n; i++) printf(" %d", (int)e[i]); free(e); }
        printf(" num %d", (int)d3plot_part_get_num_nodes(&p, &x));
        d3plot_free_part(&x);
      }
    }
    printf("\n");
  }
  d3plot_close(&p);
  return 0;
}
'''

# FILE [noincludes] : prints every keyword with its cards
KEY_C = r'''
#include "key.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void cb(key_parse_info_t info, const char *name, card_t *card, size_t index, void *ud) {
  const char *f = strrchr(info.file_name, '/');
  printf("cb %s:%d %s %lld <%s>\n", f ? f + 1 : info.file_name, (int)info.line_number, name, (long long)index, card ? card->string : "-");
}
int main(int c, char **v) {
  size_t n = 0, i, j; char *e = NULL, *w = NULL; int k;
  key_parse_config_t cfg = key_default_parse_config();
  int callback = 0;
  char *extra[16]; size_t ne = 0;
  for (k = 2; k < c; k++) {
    if (!strcmp(v[k], "noincludes")) cfg.parse_includes = 0;
    else if (!strcmp(v[k], "ignore")) cfg.ignore_not_found_includes = 1;
    else if (!strcmp(v[k], "callback")) callback = 1;
    else if (!strncmp(v[k], "-I", 2)) extra[ne++] = v[k] + 2;
  }
  cfg.extra_include_paths = extra; cfg.num_extra_include_paths = ne;
  if (callback) key_file_parse_with_callback(v[1], cb, &cfg, &e, &w, NULL, NULL);
  else {
    keyword_t *x = key_file_parse(v[1], &n, &cfg, &e, &w);
    for (i = 0; i < n; i++) {
      printf("*%s\n", x[i].name);
      for (j = 0; j < x[i].num_cards; j++) printf("  <%s>\n", x[i].cards[j].string);
    }
    key_file_free(x, n);
  }
  if (e) printf("error\n");
  if (w) printf("warning\n");
  free(e); free(w);
  return 0;
}
'''

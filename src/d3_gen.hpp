// Model of a d3plot family: generator, reference semantics of every read
// (computed from the model, not from the files) and the file writer.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace dg {
using u64 = uint64_t;
using pbt::chance;
using pbt::draw;
using pbt::range;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
// The value of word i: simple counting numbers for seed 0
inline double value(u64 seed, u64 i, int ws) {
  if (seed == 0)
    return (double)(i % 1000003 + 1);
  u64 r = mix(seed * 0x1000193 + i);
  double d;
  switch (r % 16) {
  case 0:
    d = 0.0;
    break;
  case 1:
    d = -(double)(r >> 40);
    break;
  case 2:
    d = (r & 256) ? INFINITY : -INFINITY;
    break;
  case 3:
    d = -0.0;
    break;
  case 4:
    d = std::ldexp((double)(r >> 20), -170); // denormal or tiny as float
    break;
  case 5:
    d = NAN;
    break;
  default:
    d = std::ldexp((double)(int64_t)r, (int)((r >> 8) % 60) - 90);
  }
  if (ws == 4)
    d = (float)d;
  if (d == -999999.0)
    d = 1.0;
  return d;
}

enum Kind { SOLID, TSHELL, BEAM, SHELL };

struct State {
  std::vector<double> w; // all words, w[0] is the time
};

struct Model {
  int ws = 4;
  std::string title; // 10 words
  u64 run_time = 0;
  bool type1000 = false;
  size_t nn = 0;
  // connectivity as stored (one based); material is the last word
  std::vector<std::array<u64, 9>> sol, tsh;
  std::vector<std::array<u64, 6>> beam;
  std::vector<std::array<u64, 5>> shell;
  u64 nmmat = 0, nummat8 = 0, nummatt = 0, nummat2 = 0, nummat4 = 0;
  u64 icode = 6;
  int iu = 1, iv = 0, ia = 0;
  u64 ioshl_raw[4] = {1000, 1000, 1000, 1000};
  u64 neiph = 0, neips = 0, neipb = 0, maxint = 3, mdlopt = 0, beamip = 0;
  bool istrn = false;
  u64 idtdt = 0;
  bool nv2d_unused = false; // write NV2D although there are no shells
  u64 nt3d = 0;
  u64 extra = 0;
  u64 quadr = 0, cubic = 0, npart = 0;
  u64 nel48 = 0, nel20 = 0, nel27 = 0, nel21p = 0, nel15t = 0, nel20t = 0,
      nel40p = 0, nel64 = 0, nadapt = 0;
  u64 ngpsph = 0;
  // user ids
  bool user_ids = false, nsort_neg = false;
  std::vector<u64> node_ids, sol_ids, beam_ids, shell_ids, tsh_ids, part_ids;
  u64 numrbs = 0;
  u64 extra_parts = 0; // NMMAT of the id section larger than the control one
  // header
  bool titles = false;
  std::vector<u64> title_ids;
  std::vector<std::string> part_titles; // 72 bytes each
  std::vector<int> blocks;              // header blocks in file order
  u64 numcon = 0, nline = 0;
  u64 rw = 0; // rigid wall words in the globals
  std::vector<double> coords; // initial
  std::vector<State> states;
  u64 vseed = 0;

  bool io(int i) const { return ioshl_raw[i] == 1000; }
  bool iosol(int i) const {
    return ioshl_raw[i] == 1000 || ioshl_raw[i] == 999;
  }
  u64 nv3d() const { return 6 * iosol(0) + iosol(1) + neiph; }
  u64 ipw() const { return 6 * io(0) + io(1) + neips; }
  u64 nv2d_full() const {
    return maxint * ipw() + 8 * io(2) + 4 * io(3) + 12 * istrn;
  }
  u64 nv2d() const { return shell.size() || nv2d_unused ? nv2d_full() : 0; }
  u64 nv3dt() const {
    return tsh.size() ? maxint * ipw() + 12 * (istrn && maxint >= 3) : 0;
  }
  u64 nv1d() const {
    return beam.size() ? 6 + 5 * beamip + neipb * (3 + beamip) : 0;
  }
  u64 nglbv() const {
    return 6 + 7 * (nummat8 + nummat2 + nummat4 + nummatt + numrbs) + rw;
  }
  // word offsets inside a state
  u64 o_coords() const { return 1 + nglbv(); }
  u64 o_vel() const { return o_coords() + (iu ? 3 * nn : 0); }
  u64 o_acc() const { return o_vel() + (iv ? 3 * nn : 0); }
  u64 o_therm() const { return o_acc() + (ia ? 3 * nn : 0); }
  u64 o_sol() const { return o_therm() + nt3d * sol.size(); }
  u64 o_beam() const { return o_sol() + nv3d() * sol.size(); }
  u64 o_shell() const { return o_beam() + nv1d() * beam.size(); }
  u64 o_tsh() const { return o_shell() + nv2d() * shell.size(); }
  u64 o_del() const { return o_tsh() + nv3dt() * tsh.size(); }
  u64 state_words() const {
    return o_del() +
           (mdlopt == 1   ? nn
            : mdlopt == 2 ? sol.size() + tsh.size() + beam.size() + shell.size()
                          : 0);
  }
};

struct Limits {
  size_t nodes = 30, elements = 8, states = 5, mats = 5;
  bool finite = false;
  unsigned scale = 0; // one in this many plots is large in one respect
};
// One draw seeds many values
struct Bulk {
  u64 seed, i = 0;
  Bulk() : seed(draw(1u << 30)) {}
  u64 operator()(u64 n) { return mix(seed * 0x9e3779b97f4a7c15ull + i++) % n; }
};

inline std::vector<u64> ascending(size_t n, int ws) {
  std::vector<u64> r;
  u64 cur = 0;
  u64 style = draw(4);
  if (n > 5000) {
    Bulk b;
    for (size_t i = 0; i < n; i++)
      r.push_back(cur += 1 + (style ? b(4) : 0));
    return r;
  }
  // style 3: the whole range of a word, the gaps get arbitrarily large
  const u64 last = ws == 8 ? ~0ull >> draw(3) : 0xffffffffull >> draw(2);
  for (size_t i = 0; i < n; i++) {
    u64 step = style == 0 ? 1 : 1 + draw(style == 1 ? 4 : 1000);
    if (style == 3 && chance(1, 4))
      step += (last - cur - 2000 * (n - i)) / (2 + draw(6));
    cur += step;
    if (style == 2 && i == 0 && chance(1, 4))
      cur += ws == 8 ? 1ull << 40 : 1ull << 30;
    r.push_back(cur);
  }
  return r;
}

inline std::string text(size_t n) {
  size_t len = draw(n + 1);
  std::string s;
  for (size_t i = 0; i < len; i++)
    s += (char)(chance(1, 5) ? ' ' : 33 + draw(94));
  s.resize(n, ' ');
  return s;
}

enum Large { NOT_LARGE, NODES, ELEMENTS, PARTS, STATES, POINTS, MANY_NODES };
inline Model gen_model(const Limits &limits = Limits()) {
  Model m;
  Limits lim = limits;
  int large = NOT_LARGE;
  if (lim.scale && chance(1, lim.scale)) {
    large = 1 + (int)pbt::weighted({6, 6, 5, 6, 8, 1});
    static const char *names[] = {"",
                                  "more than 255 nodes",
                                  "more than 255 elements of a kind",
                                  "more than 255 parts",
                                  "more than 255 states",
                                  "many integration points or history variables",
                                  "more than 65535 nodes"};
    pbt::label(names[large]);
    if (large != STATES)
      lim.states = std::min<size_t>(lim.states, 2);
    if (large == STATES)
      lim.nodes = lim.elements = 2;
    if (large == POINTS)
      lim.nodes = 8, lim.elements = std::min<size_t>(lim.elements, 3);
    if (large == MANY_NODES)
      lim.elements = std::min<size_t>(lim.elements, 6);
  }
  m.ws = chance(1, 2) ? 8 : 4;
  const int ws = m.ws;
  m.title = text(10 * ws);
  m.run_time = draw(1u << 31);
  m.type1000 = chance(1, 8);
  if (chance(1, 8))
    m.icode = 2;
  m.nn = chance(1, 20) ? 0 : 1 + pbt::sized(lim.nodes);
  if (large == NODES)
    m.nn = 256 + draw(500);
  if (large == MANY_NODES)
    m.nn = 65536 + draw(4000);
  if (large == ELEMENTS)
    m.nn = 1 + draw(40);
  size_t kinds = m.nn ? draw(16) : 0; // which element kinds are there
  size_t most = large == ELEMENTS ? draw(4) : 4; // the kind with many elements
  if (most < 4)
    kinds |= 1 << most;
  auto count = [&](size_t k) -> size_t {
    size_t n = (kinds >> k & 1) ? 1 + pbt::sized(lim.elements) : 0;
    return k == most ? 256 + draw(200) : n;
  };
  size_t nsol = count(0), ntsh = count(1), nbeam = count(2), nshell = count(3);
  m.nmmat = 1 + pbt::sized(lim.mats);
  if (large == PARTS)
    m.nmmat = 256 + draw(200);
  auto node = [&] { return 1 + draw(m.nn); };
  auto mat = [&] { return 1 + draw(m.nmmat); };
  for (size_t i = 0; i < nsol; i++) {
    std::array<u64, 9> a;
    for (int k = 0; k < 8; k++)
      a[k] = node();
    a[8] = mat();
    m.sol.push_back(a);
  }
  for (size_t i = 0; i < ntsh; i++) {
    std::array<u64, 9> a;
    for (int k = 0; k < 8; k++)
      a[k] = node();
    a[8] = mat();
    m.tsh.push_back(a);
  }
  for (size_t i = 0; i < nbeam; i++)
    m.beam.push_back({node(), node(), node(), draw(100), draw(100), mat()});
  for (size_t i = 0; i < nshell; i++)
    m.shell.push_back({node(), node(), node(), node(), mat()});
  m.nummat8 = draw(4), m.nummatt = draw(4), m.nummat2 = draw(4),
  m.nummat4 = draw(4);
  m.iu = (int)pbt::weighted({6, 1, 3}) + 1;
  if (m.iu == 2)
    m.iu = 0; // absent
  else if (m.iu == 3)
    m.iu = 2; // displacements
  m.iv = chance(1, 2);
  m.ia = chance(1, 2);
  for (int i = 0; i < 4; i++) {
    switch (pbt::weighted({6, 2, 2})) {
    case 0:
      m.ioshl_raw[i] = 1000;
      break;
    case 1:
      m.ioshl_raw[i] = 999;
      break;
    default:
      m.ioshl_raw[i] = chance(1, 3) ? 1 + draw(900) : 0;
    }
  }
  m.neiph = pbt::sized(9);
  m.neips = chance(1, 2) ? pbt::sized(5) : 0;
  switch (pbt::weighted({5, 4, 2, 1})) {
  case 0:
    m.maxint = 3;
    break;
  case 1:
    m.maxint = 3 + draw(6);
    break;
  case 2:
    m.maxint = draw(3);
    break;
  default:
    m.maxint = 3 + draw(30);
  }
  bool points_only = large == POINTS && chance(1, 2);
  if (points_only || (pbt::thorough() && chance(1, 200)))
    m.maxint = 120 + draw(136);
  if (large == POINTS && !points_only) {
    u64 which = 1 + draw(3);
    if (which & 1)
      m.neips = 120 + draw(136);
    if (which & 2)
      m.neiph = 120 + draw(300);
    m.maxint = 1 + draw(6);
  }
  m.mdlopt = pbt::weighted({4, 2, 2});
  if (m.mdlopt == 1 && m.maxint == 0)
    m.mdlopt = 0;
  // MAXINT of MDLOPT 2 is written as -(10000 + MAXINT); 0 would be MDLOPT 1
  if (m.mdlopt == 2 && m.maxint == 0)
    m.mdlopt = 0;
  m.beamip = chance(1, 2) ? pbt::sized(4) : 0;
  m.istrn = chance(1, 2);
  m.nv2d_unused = chance(1, 8);
  if (chance(3, 5)) {
    m.extra = chance(1, 2)   ? 64
              : chance(1, 4) ? 65 + draw(300)
                             : 18 + draw(47);
    m.neipb = chance(1, 2) ? pbt::sized(4) : 0;
    if (large == POINTS && chance(1, 2)) {
      if (chance(1, 2))
        m.neipb = 120 + draw(136);
      else
        m.beamip = 120 + draw(136);
    }
    m.nt3d = chance(1, 5) ? draw(4) : 0;
    m.quadr = chance(1, 6) ? 1 + draw(2) : 0;
    m.cubic = chance(1, 6);
    if (m.quadr || m.cubic)
      m.npart = draw(3);
    if (chance(1, 3)) {
      m.nel20 = draw(3), m.nel27 = draw(3), m.nel21p = draw(3),
      m.nel15t = draw(3), m.nel20t = draw(3), m.nel40p = draw(3),
      m.nel64 = draw(3);
    }
  }
  if (chance(1, 5))
    m.nel48 = draw(3);
  if (chance(1, 5))
    m.nadapt = draw(3);
  // strain flag: explicit, or derived from the record sizes
  if (m.istrn && chance(1, 2)) {
    m.idtdt = 10000 + (chance(1, 4) ? 2 * draw(2) : 0);
    if (chance(1, 4))
      m.idtdt += 20000 * 0 + 100 * 2; // digits other than one are ignored
  } else {
    m.idtdt = chance(1, 6) ? (chance(1, 2) ? 20 : 2) : 0;
    bool by_shell = m.shell.size() || m.nv2d_unused;
    if (by_shell) {
      // decided by NV2D > 0
      if (m.nv2d_full() == 0)
        m.istrn = false;
      // NV2D only counts if it is not zero, otherwise the thick shells decide
      if (m.nv2d_full() == 0 && !m.tsh.empty())
        m.istrn = false;
    } else if (m.tsh.empty() || m.maxint < 3)
      m.istrn = false;
  }
  m.ngpsph = draw(4);
  m.user_ids = chance(2, 3);
  if (m.user_ids) {
    m.nsort_neg = chance(3, 4);
    m.node_ids = ascending(m.nn, ws);
    if (chance(1, 4))
      pbt::shuffle(m.node_ids);
    m.sol_ids = ascending(nsol, ws);
    m.beam_ids = ascending(nbeam, ws);
    m.shell_ids = ascending(nshell, ws);
    m.tsh_ids = ascending(ntsh, ws);
    m.part_ids = ascending(m.nmmat, ws);
    if (chance(1, 3))
      pbt::shuffle(m.part_ids);
    if (m.nsort_neg) {
      m.numrbs = chance(1, 3) ? draw(3) : 0;
      m.extra_parts = chance(1, 6) ? 1 + draw(2) : 0;
    }
  }
  m.titles = chance(2, 3);
  if (m.titles) {
    m.title_ids = m.user_ids && chance(2, 3) ? m.part_ids
                                             : ascending(m.nmmat, ws);
    if (chance(1, 3))
      pbt::shuffle(m.title_ids);
    for (size_t i = 0; i < m.nmmat; i++)
      m.part_titles.push_back(text(72));
  }
  if (m.titles)
    m.blocks.push_back(90001);
  if (chance(1, 3))
    m.blocks.push_back(90000);
  if (chance(1, 3))
    m.blocks.push_back(90002),
        m.numcon = chance(1, 12) ? 250 + draw(100) : draw(3);
  if (chance(1, 3)) {
    m.blocks.push_back(900100);
    m.nline = chance(1, 3) ? draw(400) : draw(3);
  }
  pbt::shuffle(m.blocks);
  m.rw = chance(1, 3) ? draw(4) : 0;
  m.vseed = chance(1, 2) ? draw(1u << 30) : 0;
  for (size_t i = 0; i < 3 * m.nn; i++)
    m.coords.push_back(m.vseed ? value(m.vseed ^ 0x5555555, i, ws)
                               : (double)(i % 1000) * 0.25);
  size_t ns = chance(1, 20) ? 0 : 1 + pbt::sized(lim.states);
  if (large == STATES)
    ns = 256 + draw(150);
  for (size_t s = 0; s < ns; s++) {
    State st;
    st.w.resize(m.state_words());
    for (size_t i = 0; i < st.w.size(); i++) {
      st.w[i] = value(m.vseed, i + s * 1009, ws);
      if (lim.finite && !std::isfinite(st.w[i]))
        st.w[i] = 0.5;
    }
    st.w[0] = m.vseed && chance(1, 8) ? value(m.vseed ^ 77, s, ws)
                                      : (double)s * 0.5;
    m.states.push_back(std::move(st));
  }
  return m;
}

inline std::string describe(const Model &m) {
  return pbt::fmt(
      "ws=%d nodes=%zu solids=%zu tshells=%zu beams=%zu shells=%zu parts=%llu "
      "iu=%d iv=%d ia=%d ioshl=%llu,%llu,%llu,%llu neiph=%llu neips=%llu "
      "maxint=%llu mdlopt=%llu beamip=%llu neipb=%llu istrn=%d idtdt=%llu "
      "extra=%llu ids=%d nsort<0=%d titles=%d states=%zu vseed=%llu",
      m.ws, m.nn, m.sol.size(), m.tsh.size(), m.beam.size(), m.shell.size(),
      (unsigned long long)m.nmmat, m.iu, m.iv, m.ia,
      (unsigned long long)m.ioshl_raw[0], (unsigned long long)m.ioshl_raw[1],
      (unsigned long long)m.ioshl_raw[2], (unsigned long long)m.ioshl_raw[3],
      (unsigned long long)m.neiph, (unsigned long long)m.neips,
      (unsigned long long)m.maxint, (unsigned long long)m.mdlopt,
      (unsigned long long)m.beamip, (unsigned long long)m.neipb, m.istrn,
      (unsigned long long)m.idtdt, (unsigned long long)m.extra, m.user_ids,
      m.nsort_neg, m.titles, m.states.size(), (unsigned long long)m.vseed);
}

// ---------------------------------------------------------------- writer
struct Words {
  int ws;
  std::string b;
  explicit Words(int w) : ws(w) {}
  void i(u64 v) { b.append((const char *)&v, ws); }
  void f(double v) {
    if (ws == 4) {
      float x = (float)v;
      b.append((const char *)&x, 4);
    } else
      b.append((const char *)&v, 8);
  }
  void s(const std::string &x) { b += x; }
  size_t n() const { return b.size() / ws; }
};

// control words of the root file by name, for damaging them
struct Layout {
  std::map<std::string, size_t> word;
};

inline std::string write_root(const Model &m, Layout *lay = nullptr) {
  Words w(m.ws);
  auto put = [&](const char *name, u64 v) {
    if (lay)
      lay->word[name] = w.n();
    w.i(v);
  };
  w.s(m.title);
  put("run_time", m.run_time);
  put("file_type", m.type1000 ? 1001 : 1);
  put("source_version", 10);
  put("release", 20);
  w.f(971.0);
  put("ndim", 4);
  put("numnp", m.nn);
  put("icode", m.icode);
  put("nglbv", m.nglbv());
  put("it", 0);
  put("iu", m.iu);
  put("iv", m.iv);
  put("ia", m.ia);
  put("nel8", m.sol.size());
  put("nummat8", m.nummat8);
  put("numds", 0);
  put("numst", 0);
  put("nv3d", m.nv3d());
  put("nel2", m.beam.size());
  put("nummat2", m.nummat2);
  put("nv1d", m.nv1d());
  put("nel4", m.shell.size());
  put("nummat4", m.nummat4);
  put("nv2d", m.nv2d());
  put("neiph", m.neiph);
  put("neips", m.neips);
  int64_t mi = (int64_t)m.maxint;
  put("maxint", (u64)(m.mdlopt == 0   ? mi
                      : m.mdlopt == 1 ? -mi
                                      : -mi - 10000));
  put("nmsph", 0);
  // A 4 byte file could also be taken for an 8 byte file (which is rejected
  // as ambiguous); this otherwise unused word settles it
  put("ngpsph", m.ws == 4 ? 7 : m.ngpsph);
  u64 narbs = 0;
  if (m.user_ids)
    narbs = 10 + (m.nsort_neg ? 6 : 0) + m.nn + m.sol.size() + m.beam.size() +
            m.shell.size() + m.tsh.size() + 3 * (m.nmmat + m.extra_parts);
  put("narbs", narbs);
  put("nelt", m.tsh.size());
  put("nummatt", m.nummatt);
  put("nv3dt", m.nv3dt());
  put("ioshl1", m.ioshl_raw[0]);
  put("ioshl2", m.ioshl_raw[1]);
  put("ioshl3", m.ioshl_raw[2]);
  put("ioshl4", m.ioshl_raw[3]);
  put("ialemat", 0);
  put("ncfdv1", 0);
  put("ncfdv2", 0);
  put("nadapt", m.nadapt);
  put("nmmat", m.nmmat);
  put("numfluid", 0);
  put("inn", 1);
  put("npefg", 0);
  put("nel48", m.nel48);
  put("idtdt", m.idtdt);
  put("extra", m.extra);
  for (int i = 0; i < 6; i++)
    w.i(0);
  if (m.extra) {
    put("nel20", m.nel20);
    put("nt3d", m.nt3d);
    put("nel27", m.nel27);
    put("neipb", m.neipb);
    put("nel21p", m.nel21p);
    put("nel15t", m.nel15t);
    put("soleng", 0);
    put("nel20t", m.nel20t);
    put("nel40p", m.nel40p);
    put("nel64", m.nel64);
    put("quadr", m.quadr);
    put("cubic", m.cubic);
    put("tsheng", 0);
    put("nbranch", 0);
    put("penout", 0);
    put("engout", 0);
    put("bemeng", 0);
    put("kineng", 0);
    for (u64 i = 18; i < m.extra; i++)
      w.i(0);
    if (m.quadr || m.cubic) {
      put("npart", m.npart);
      for (u64 i = 0; i < 9 * m.npart; i++)
        w.i(i);
    }
  }
  if (lay)
    lay->word["geometry"] = w.n();
  for (double c : m.coords)
    w.f(c);
  auto con = [&](auto &v) {
    for (auto &e : v)
      for (u64 x : e)
        w.i(x);
  };
  con(m.sol);
  con(m.tsh);
  con(m.beam);
  con(m.shell);
  if (m.user_ids) {
    put("nsort", m.nsort_neg ? (u64)-1 : 1);
    for (int i = 0; i < 4; i++)
      w.i(7);
    put("nsortd", m.nn);
    put("nsrhd", m.sol.size());
    put("nsrbd", m.beam.size());
    put("nsrsd", m.shell.size());
    put("nsrtd", m.tsh.size());
    if (m.nsort_neg) {
      for (int i = 0; i < 4; i++)
        w.i(9);
      put("numrbs", m.numrbs);
      put("nmmat_ids", m.nmmat + m.extra_parts);
    }
    for (auto *v : {&m.node_ids, &m.sol_ids, &m.beam_ids, &m.shell_ids,
                    &m.tsh_ids, &m.part_ids})
      for (u64 x : *v)
        w.i(x);
    for (u64 i = m.nmmat; i < 3 * (m.nmmat + m.extra_parts); i++)
      w.i(100000 + i);
  }
  auto junk = [&](u64 n) {
    for (u64 i = 0; i < n; i++)
      w.i(i + 3);
  };
  junk(5 * m.nel48);
  if (m.extra) {
    junk(13 * m.nel20);
    if (m.quadr) {
      junk(28 * m.nel27);
      junk(22 * m.nel21p);
      junk(16 * m.nel15t);
    }
    if (m.cubic) {
      junk(21 * m.nel20t);
      junk(41 * m.nel40p);
      junk(65 * m.nel64);
    }
  }
  junk(2 * m.nadapt);
  if (lay)
    lay->word["eof1"] = w.n();
  w.f(-999999.0);
  for (int t : m.blocks) {
    put("ntype", t);
    if (t == 90000)
      w.s(std::string(72, 'h'));
    else if (t == 90001) {
      put("numprop", m.title_ids.size());
      for (size_t i = 0; i < m.title_ids.size(); i++) {
        w.i(m.title_ids[i]);
        w.s(m.part_titles[i]);
      }
    } else if (t == 90002) {
      put("numcon", m.numcon);
      for (u64 i = 0; i < m.numcon; i++) {
        w.i(i);
        w.s(std::string(72, 'c'));
      }
    } else {
      put("nline", m.nline);
      for (u64 i = 0; i < m.nline; i++)
        w.s(std::string(80, 'k'));
    }
  }
  if (lay)
    lay->word["eof2"] = w.n();
  w.f(-999999.0);
  return w.b;
}

// A legal distribution of the plot over files. Every file but the first holds
// whole states closed by an EOF marker, or is cut at any word and continued in
// the following file.
inline std::vector<std::string> split(const Model &m, bool one_file,
                                      const std::string *root_bytes = nullptr) {
  std::vector<std::string> files;
  const int ws = m.ws;
  auto padding = [&](std::string &s) {
    if (!one_file && chance(1, 4)) {
      size_t n = 1 + draw(8);
      for (size_t i = 0; i < n; i++)
        s.append((const char *)"\x11\x22\x33\x44\x55\x66\x77\x88", ws);
    }
  };
  auto cut_push = [&](std::string s, size_t min_first) {
    // min_first: words that have to stay in the first file
    while (!one_file && chance(1, 5) && s.size() / ws > min_first + 1) {
      size_t at = min_first + 1 + draw(s.size() / ws - min_first - 1);
      files.push_back(s.substr(0, at * ws));
      s = s.substr(at * ws);
      min_first = 0;
    }
    // only the member with the end marker may have padding behind it
    padding(s);
    files.push_back(s);
  };
  std::string root = root_bytes ? *root_bytes : write_root(m);
  cut_push(root, 64);
  u64 style = one_file ? 0 : draw(3); // all, one each, mixed
  std::string cur;
  bool have = false;
  auto flush = [&] {
    Words e(ws);
    e.f(-999999.0);
    cur += e.b;
    cut_push(cur, 0);
    cur.clear();
    have = false;
  };
  for (auto &s : m.states) {
    Words w(ws);
    for (double d : s.w)
      w.f(d);
    cur += w.b;
    have = true;
    if (style == 1 || (style == 2 && chance(1, 2)))
      flush();
  }
  if (have || m.states.empty())
    flush();
  return files;
}
inline std::string member(const std::string &root, size_t i) {
  return i == 0 ? root
                : root + pbt::fmt(i < 10 ? "%02zu" : "%zu", i);
}
inline void write_family(const std::string &root,
                         const std::vector<std::string> &files) {
  for (size_t i = 0; i < files.size(); i++)
    pbt::write_file(member(root, i), files[i]);
}
} // namespace dg

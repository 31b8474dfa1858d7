// Every read of the d3plot C API as an operation with a comparable result, and
// the result the model says it must have.
#pragma once
#include "d3_gen.hpp"
#include <d3plot.h>

namespace da {
using u64 = uint64_t;
enum Op {
  NODE_IDS,
  SOLID_IDS,
  BEAM_IDS,
  SHELL_IDS,
  TSHELL_IDS,
  ALL_EL_IDS,
  PART_IDS,
  PART_TITLES,
  TITLE,
  EPOCH,
  RUN_TIME,
  SOLID_CON,
  TSHELL_CON,
  BEAM_CON,
  SHELL_CON,
  COORDS, // per state
  VEL,
  ACC,
  COORDS32,
  VEL32,
  ACC32,
  TIME,
  TIME32,
  SOLIDS,
  TSHELLS,
  BEAMS,
  SHELLS,
  ALL_COORDS,
  ALL_VEL,
  ALL_ACC,
  ALL_COORDS32,
  ALL_VEL32,
  ALL_ACC32,
  ALL_TIME,
  ALL_TIME32,
  PART,       // index
  PART_BY_ID, // id, mask bit 0: supply ids
  PART_NODE_IDS, // index, mask
  PART_NODE_INDICES,
  PART_NUM_NODES,
  PART_ELEMENTS, // count and all ids
  NUM_OPS
};
inline const char *name(int op) {
  static const char *n[] = {
      "node_ids", "solid_ids", "beam_ids", "shell_ids", "tshell_ids",
      "all_element_ids", "part_ids", "part_titles", "title", "epoch_run_time",
      "run_time", "solid_elements", "tshell_elements", "beam_elements",
      "shell_elements", "coords", "velocity", "acceleration", "coords_32",
      "velocity_32", "acceleration_32", "time", "time_32", "solids_state",
      "tshells_state", "beams_state", "shells_state", "all_coords",
      "all_velocity", "all_acceleration", "all_coords_32", "all_velocity_32",
      "all_acceleration_32", "all_time", "all_time_32", "part", "part_by_id",
      "part_node_ids", "part_node_indices", "part_num_nodes", "part_elements"};
  return n[op];
}
inline bool per_state(int op) { return op >= COORDS && op <= SHELLS; }
inline bool per_part(int op) { return op >= PART; }

struct Call {
  int op = 0;
  u64 arg = 0;  // state, part index or part id
  u64 mask = 0; // optional arrays supplied
};
struct Val {
  bool err = false;
  std::string msg;
  std::vector<double> d;
  std::vector<u64> u;
  std::vector<std::string> s;
};
inline bool same(double a, double b) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  return memcmp(&a, &b, sizeof a) == 0;
}
// empty if equal
inline std::string diff(const Val &got, const Val &want) {
  if (got.err != want.err)
    return got.err ? pbt::fmt("reports an error: %s", got.msg.c_str())
                   : "reports no error";
  if (got.err)
    return got.msg.empty() ? "reports an empty error" : "";
  if (got.u.size() != want.u.size())
    return pbt::fmt("has %zu integers instead of %zu", got.u.size(),
                    want.u.size());
  for (size_t i = 0; i < want.u.size(); i++)
    if (got.u[i] != want.u[i])
      return pbt::fmt("integer %zu of %zu is %llu instead of %llu", i,
                      want.u.size(), (unsigned long long)got.u[i],
                      (unsigned long long)want.u[i]);
  if (got.d.size() != want.d.size())
    return pbt::fmt("has %zu values instead of %zu", got.d.size(),
                    want.d.size());
  for (size_t i = 0; i < want.d.size(); i++)
    if (!same(got.d[i], want.d[i]))
      return pbt::fmt("value %zu of %zu is %.17g instead of %.17g", i,
                      want.d.size(), got.d[i], want.d[i]);
  if (got.s != want.s) {
    for (size_t i = 0; i < want.s.size() && i < got.s.size(); i++)
      if (got.s[i] != want.s[i])
        return pbt::fmt("string %zu is '%s' instead of '%s'", i,
                        got.s[i].c_str(), want.s[i].c_str());
    return pbt::fmt("has %zu strings instead of %zu", got.s.size(),
                    want.s.size());
  }
  return "";
}
inline std::string text_of(const Call &c) {
  std::string s = name(c.op);
  if (per_state(c.op) || per_part(c.op))
    s += pbt::fmt("(%llu", (unsigned long long)c.arg) +
         (c.mask ? pbt::fmt(", mask %llx)", (unsigned long long)c.mask)
                 : std::string(")"));
  return s;
}
// for transcripts
inline std::string text_of(const Val &v) {
  if (v.err)
    return "error: " + v.msg;
  std::string r;
  for (u64 x : v.u)
    r += pbt::fmt("%llx,", (unsigned long long)x);
  r += ";";
  for (double x : v.d) {
    if (std::isnan(x)) {
      r += "nan,";
      continue;
    }
    u64 b;
    memcpy(&b, &x, 8);
    r += pbt::fmt("%llx,", (unsigned long long)b);
  }
  r += ";";
  for (auto &x : v.s)
    r += "'" + x + "',";
  return r;
}

// ------------------------------------------------------------------ calls
inline void put_tensor(Val &v, const d3plot_tensor &t) {
  v.d.insert(v.d.end(), {t.x, t.y, t.z, t.xy, t.yz, t.xz});
}
inline void put_surface(Val &v, const d3plot_surface &s, size_t nh) {
  put_tensor(v, s.sigma);
  v.d.push_back(s.effective_plastic_strain);
  if (nh && !s.history_variables)
    v.s.push_back("history variables missing");
  for (size_t i = 0; i < nh && s.history_variables; i++)
    v.d.push_back(s.history_variables[i]);
}
template <class T> inline void put_con(Val &v, T *p, size_t n) {
  v.u.push_back(n);
  if (!p && n)
    v.s.push_back("null");
  for (size_t i = 0; p && i < n; i++) {
    for (u64 x : p[i].node_indices)
      v.u.push_back(x);
    v.u.push_back(p[i].material_index);
  }
  free(p);
}
inline void put_ids(Val &v, d3_word *p, size_t n) {
  v.u.push_back(n);
  if (!p && n)
    v.s.push_back("null");
  for (size_t i = 0; p && i < n; i++)
    v.u.push_back(p[i]);
  free(p);
}
template <class T>
inline void put_num(Val &v, T *p, size_t n, size_t a, size_t b = 0) {
  v.u.push_back(a);
  v.u.push_back(b);
  if (!p && n)
    v.s.push_back("null");
  for (size_t i = 0; p && i < n; i++)
    v.d.push_back(p[i]);
  free(p);
}
inline void put_part(Val &v, const d3plot_part &p) {
  auto one = [&](size_t n, const d3_word *ids, const size_t *idx) {
    v.u.push_back(n);
    for (size_t i = 0; i < n; i++) {
      v.u.push_back(ids[i]);
      v.u.push_back(idx[i]);
    }
  };
  one(p.num_solids, p.solid_ids, p.solid_indices);
  one(p.num_thick_shells, p.thick_shell_ids, p.thick_shell_indices);
  one(p.num_beams, p.beam_ids, p.beam_indices);
  one(p.num_shells, p.shell_ids, p.shell_indices);
}

inline Val call(d3plot_file *f, const Call &c, bool errors = true) {
  Val v;
  const size_t S = c.arg;
  size_t n = 0xdead, t = 0xdead;
  auto failed = [&] { return errors && f->error_string; };
  switch (c.op) {
#define IDS(op, fn)                                                            \
  case op: {                                                                   \
    auto *p = fn(f, &n);                                                       \
    if (failed() && (p || n))                                                  \
      v.msg += "(data with error)";                                            \
    put_ids(v, p, n);                                                          \
    break;                                                                     \
  }
    IDS(NODE_IDS, d3plot_read_node_ids)
    IDS(SOLID_IDS, d3plot_read_solid_element_ids)
    IDS(BEAM_IDS, d3plot_read_beam_element_ids)
    IDS(SHELL_IDS, d3plot_read_shell_element_ids)
    IDS(TSHELL_IDS, d3plot_read_thick_shell_element_ids)
    IDS(ALL_EL_IDS, d3plot_read_all_element_ids)
    IDS(PART_IDS, d3plot_read_part_ids)
  case PART_TITLES: {
    char **p = d3plot_read_part_titles(f, &n);
    v.u.push_back(n);
    for (size_t i = 0; p && i < n; i++) {
      v.s.push_back(p[i]);
      free(p[i]);
    }
    free(p);
    break;
  }
  case TITLE: {
    char *p = d3plot_read_title(f);
    if (p)
      v.s.push_back(p);
    free(p);
    break;
  }
  case EPOCH:
    v.u.push_back((u64)d3plot_read_epoch_run_time(f));
    break;
  case RUN_TIME: {
    struct tm *p = d3plot_read_run_time(f);
    if (p)
      v.u.insert(v.u.end(),
                 {(u64)p->tm_year, (u64)p->tm_mon, (u64)p->tm_mday,
                  (u64)p->tm_hour, (u64)p->tm_min, (u64)p->tm_sec});
    break;
  }
  case SOLID_CON: {
    auto *p = d3plot_read_solid_elements(f, &n);
    put_con(v, p, n);
    break;
  }
  case TSHELL_CON: {
    auto *p = d3plot_read_thick_shell_elements(f, &n);
    put_con(v, p, n);
    break;
  }
  case SHELL_CON: {
    auto *p = d3plot_read_shell_elements(f, &n);
    put_con(v, p, n);
    break;
  }
  case BEAM_CON: {
    auto *p = d3plot_read_beam_elements(f, &n);
    if (p)
      for (size_t i = 0; i < n; i++)
        v.u.insert(v.u.end(),
                   {p[i].orientation_node_index, p[i]._null[0], p[i]._null[1]});
    put_con(v, p, n);
    break;
  }
#define NODE(op, fn)                                                           \
  case op: {                                                                   \
    auto *p = fn(f, S, &n);                                                    \
    put_num(v, p, 3 * n, n);                                                   \
    break;                                                                     \
  }
    NODE(COORDS, d3plot_read_node_coordinates)
    NODE(VEL, d3plot_read_node_velocity)
    NODE(ACC, d3plot_read_node_acceleration)
    NODE(COORDS32, d3plot_read_node_coordinates_32)
    NODE(VEL32, d3plot_read_node_velocity_32)
    NODE(ACC32, d3plot_read_node_acceleration_32)
  case TIME:
    v.d.push_back(d3plot_read_time(f, S));
    break;
  case TIME32:
    v.d.push_back(d3plot_read_time_32(f, S));
    break;
#define ALLN(op, fn)                                                           \
  case op: {                                                                   \
    auto *p = fn(f, &n, &t);                                                   \
    put_num(v, p, 3 * n *t, n, t);                                             \
    break;                                                                     \
  }
    ALLN(ALL_COORDS, d3plot_read_all_node_coordinates)
    ALLN(ALL_VEL, d3plot_read_all_node_velocity)
    ALLN(ALL_ACC, d3plot_read_all_node_acceleration)
    ALLN(ALL_COORDS32, d3plot_read_all_node_coordinates_32)
    ALLN(ALL_VEL32, d3plot_read_all_node_velocity_32)
    ALLN(ALL_ACC32, d3plot_read_all_node_acceleration_32)
  case ALL_TIME: {
    auto *p = d3plot_read_all_time(f, &n);
    put_num(v, p, n, n);
    break;
  }
  case ALL_TIME32: {
    auto *p = d3plot_read_all_time_32(f, &n);
    put_num(v, p, n, n);
    break;
  }
  case SOLIDS: {
    auto *p = d3plot_read_solids_state(f, S, &n);
    v.u.push_back(n);
    for (size_t i = 0; p && i < n; i++) {
      put_tensor(v, p[i].sigma);
      v.d.push_back(p[i].effective_plastic_strain);
      put_tensor(v, p[i].epsilon);
    }
    free(p);
    break;
  }
  case TSHELLS: {
    auto *p = d3plot_read_thick_shells_state(f, S, &n);
    v.u.push_back(n);
    for (size_t i = 0; p && i < n; i++) {
      auto &e = p[i];
      size_t nh = e.num_history_variables;
      v.u.push_back(nh);
      v.u.push_back(e.num_additional_integration_points);
      put_surface(v, e.mid, nh);
      put_surface(v, e.inner, nh);
      put_surface(v, e.outer, nh);
      for (size_t k = 0; k < e.num_additional_integration_points; k++)
        put_surface(v, e.add_ips[k], nh);
      put_tensor(v, e.inner_epsilon);
      put_tensor(v, e.outer_epsilon);
    }
    d3plot_free_thick_shells_state(p);
    break;
  }
  case BEAMS: {
    auto *p = d3plot_read_beams_state(f, S, &n);
    v.u.push_back(n);
    for (size_t i = 0; p && i < n; i++) {
      auto &e = p[i];
      size_t nh = e.num_history_variables, ni = e.num_integration_points;
      v.u.push_back(nh);
      v.u.push_back(ni);
      v.d.insert(v.d.end(), {e.axial_force, e.s_shear_resultant,
                             e.t_shear_resultant, e.s_bending_moment,
                             e.t_bending_moment, e.torsional_resultant});
      for (size_t k = 0; k < ni; k++) {
        auto &ip = e.ips[k];
        v.d.insert(v.d.end(),
                   {ip.rs_shear_stress, ip.tr_shear_stress, ip.axial_stress,
                    ip.plastic_strain, ip.axial_strain});
      }
      for (size_t k = 0; k < nh; k++)
        v.d.push_back(e.history_average[k]);
      for (size_t k = 0; k < nh; k++)
        v.d.push_back(e.history_min[k]);
      for (size_t k = 0; k < nh; k++)
        v.d.push_back(e.history_max[k]);
      for (size_t k = 0; k < ni; k++)
        for (size_t h = 0; h < nh; h++)
          v.d.push_back(e.ips[k].history_variables[h]);
    }
    d3plot_free_beams_state(p);
    break;
  }
  case SHELLS: {
    auto *p = d3plot_read_shells_state(f, S, &n);
    v.u.push_back(n);
    for (size_t i = 0; p && i < n; i++) {
      auto &e = p[i];
      size_t nh = e.num_history_variables;
      v.u.push_back(nh);
      v.u.push_back(e.num_additional_integration_points);
      put_surface(v, e.mid, nh);
      put_surface(v, e.inner, nh);
      put_surface(v, e.outer, nh);
      for (size_t k = 0; k < e.num_additional_integration_points; k++)
        put_surface(v, e.add_ips[k], nh);
      put_tensor(v, e.inner_epsilon);
      put_tensor(v, e.outer_epsilon);
      v.d.insert(v.d.end(),
                 {e.bending_moment.x, e.bending_moment.y, e.bending_moment.xy,
                  e.shear_resultant.x, e.shear_resultant.y,
                  e.normal_resultant.x, e.normal_resultant.y,
                  e.normal_resultant.xy, e.thickness,
                  e.element_dependent_variables[0],
                  e.element_dependent_variables[1], e.internal_energy});
    }
    d3plot_free_shells_state(p);
    break;
  }
  case PART: {
    d3plot_part p = d3plot_read_part(f, S);
    put_part(v, p);
    d3plot_free_part(&p);
    break;
  }
  case PART_BY_ID: {
    d3_word *ids = nullptr;
    size_t np = 0;
    if (c.mask & 1) {
      ids = d3plot_read_part_ids(f, &np);
      if (failed()) {
        free(ids);
        break;
      }
    }
    d3plot_part p = d3plot_read_part_by_id(f, S, ids, np);
    put_part(v, p);
    d3plot_free_part(&p);
    free(ids);
    break;
  }
  case PART_NODE_IDS:
  case PART_NODE_INDICES:
  case PART_NUM_NODES: {
    d3plot_part p = d3plot_read_part(f, S);
    if (failed()) {
      d3plot_free_part(&p);
      break;
    }
    d3_word *id[5] = {};
    size_t k[5] = {}, q = 0;
    d3plot_solid_con *sc = nullptr;
    d3plot_beam_con *bc = nullptr;
    d3plot_shell_con *shc = nullptr;
    d3plot_thick_shell_con *tc = nullptr;
    if (c.mask & 1)
      id[0] = d3plot_read_node_ids(f, &k[0]);
    if (c.mask & 2)
      id[1] = d3plot_read_solid_element_ids(f, &k[1]);
    if (c.mask & 4)
      id[2] = d3plot_read_beam_element_ids(f, &k[2]);
    if (c.mask & 8)
      id[3] = d3plot_read_shell_element_ids(f, &k[3]);
    if (c.mask & 16)
      id[4] = d3plot_read_thick_shell_element_ids(f, &k[4]);
    if (c.mask & 32)
      sc = d3plot_read_solid_elements(f, &q);
    if (c.mask & 64)
      bc = d3plot_read_beam_elements(f, &q);
    if (c.mask & 128)
      shc = d3plot_read_shell_elements(f, &q);
    if (c.mask & 256)
      tc = d3plot_read_thick_shell_elements(f, &q);
    if (!failed()) {
      if (c.op == PART_NODE_IDS) {
        auto *r = d3plot_part_get_node_ids2(f, &p, &n, id[0], k[0], id[1], k[1],
                                            id[2], k[2], id[3], k[3], id[4],
                                            k[4], sc, bc, shc, tc);
        put_ids(v, r, n);
      } else if (c.op == PART_NODE_INDICES) {
        auto *r = d3plot_part_get_node_indices2(
            f, &p, &n, id[1], k[1], id[2], k[2], id[3], k[3], id[4], k[4], sc,
            bc, shc, tc);
        put_ids(v, r, n);
      } else
        v.u.push_back(d3plot_part_get_num_nodes2(f, &p, id[1], k[1], id[2],
                                                 k[2], id[3], k[3], id[4], k[4],
                                                 sc, bc, shc, tc));
    }
    for (auto *x : id)
      free(x);
    free(sc);
    free(bc);
    free(shc);
    free(tc);
    d3plot_free_part(&p);
    break;
  }
  case PART_ELEMENTS: {
    d3plot_part p = d3plot_read_part(f, S);
    if (!failed()) {
      v.u.push_back(d3plot_part_get_num_elements(&p));
      auto *r = d3plot_part_get_all_element_ids(&p, &n);
      put_ids(v, r, n);
    }
    d3plot_free_part(&p);
    break;
  }
  }
  if (errors && f->error_string) {
    v.err = true;
    v.msg += f->error_string;
  }
  return v;
}

// ------------------------------------------------------------------ oracle
inline Val error_val() {
  Val v;
  v.err = true;
  return v;
}
struct Parts {
  std::vector<u64> sol, tsh, beam, shell; // positions
  size_t count() const {
    return sol.size() + tsh.size() + beam.size() + shell.size();
  }
};
inline Parts part_of(const dg::Model &m, u64 index) {
  Parts p;
  for (size_t i = 0; i < m.sol.size(); i++)
    if (m.sol[i][8] == index + 1)
      p.sol.push_back(i);
  for (size_t i = 0; i < m.tsh.size(); i++)
    if (m.tsh[i][8] == index + 1)
      p.tsh.push_back(i);
  for (size_t i = 0; i < m.beam.size(); i++)
    if (m.beam[i][5] == index + 1)
      p.beam.push_back(i);
  for (size_t i = 0; i < m.shell.size(); i++)
    if (m.shell[i][4] == index + 1)
      p.shell.push_back(i);
  return p;
}
inline u64 id_at(const dg::Model &m, const std::vector<u64> &ids, size_t i) {
  return m.user_ids ? ids[i] : i + 1;
}
inline std::vector<u64> known_part_ids(const dg::Model &m, bool *ok) {
  *ok = true;
  if (m.user_ids && m.nsort_neg)
    return m.part_ids;
  if (m.titles)
    return m.title_ids;
  *ok = false;
  return {};
}
inline Val expect(const dg::Model &m, const Call &c) {
  using namespace dg;
  Val v;
  const size_t S = c.arg;
  const size_t ns = m.states.size();
  if (per_state(c.op) && S >= ns)
    return error_val();
  auto ids = [&](const std::vector<u64> &list, size_t n) {
    v.u.push_back(n);
    for (size_t i = 0; i < n; i++)
      v.u.push_back(id_at(m, list, i));
  };
  auto cstr = [](const std::string &s) { return std::string(s.c_str()); };
  // nodal value in the precision of the file
  auto nodal = [&](int what, size_t state, size_t i) -> double {
    double x = m.states[state].w[(what == 0   ? m.o_coords()
                                  : what == 1 ? m.o_vel()
                                              : m.o_acc()) +
                                 i];
    if (what == 0 && m.iu == 2)
      x = m.ws == 4 ? (double)((float)x + (float)m.coords[i])
                    : x + m.coords[i];
    return x;
  };
  auto present = [&](int what) {
    return what == 0 ? m.iu != 0 : what == 1 ? m.iv != 0 : m.ia != 0;
  };
  auto tensor = [&](const double *p) { v.d.insert(v.d.end(), p, p + 6); };
  static const double zero[16] = {};
  switch (c.op) {
  case NODE_IDS:
    ids(m.node_ids, m.nn);
    break;
  case SOLID_IDS:
    ids(m.sol_ids, m.sol.size());
    break;
  case BEAM_IDS:
    ids(m.beam_ids, m.beam.size());
    break;
  case SHELL_IDS:
    ids(m.shell_ids, m.shell.size());
    break;
  case TSHELL_IDS:
    ids(m.tsh_ids, m.tsh.size());
    break;
  case ALL_EL_IDS: {
    std::vector<u64> all;
    for (size_t i = 0; i < m.sol.size(); i++)
      all.push_back(id_at(m, m.sol_ids, i));
    for (size_t i = 0; i < m.beam.size(); i++)
      all.push_back(id_at(m, m.beam_ids, i));
    for (size_t i = 0; i < m.shell.size(); i++)
      all.push_back(id_at(m, m.shell_ids, i));
    for (size_t i = 0; i < m.tsh.size(); i++)
      all.push_back(id_at(m, m.tsh_ids, i));
    std::sort(all.begin(), all.end());
    v.u.push_back(all.size());
    v.u.insert(v.u.end(), all.begin(), all.end());
    break;
  }
  case PART_IDS: {
    bool ok;
    auto p = known_part_ids(m, &ok);
    if (!ok)
      return error_val();
    v.u.push_back(p.size());
    v.u.insert(v.u.end(), p.begin(), p.end());
    break;
  }
  case PART_TITLES:
    if (!m.titles)
      return error_val();
    v.u.push_back(m.part_titles.size());
    for (auto &t : m.part_titles)
      v.s.push_back(cstr(t));
    break;
  case TITLE:
    v.s.push_back(cstr(m.title));
    break;
  case EPOCH:
    v.u.push_back(m.run_time);
    break;
  case RUN_TIME: {
    time_t t = (time_t)m.run_time;
    struct tm tm;
    localtime_r(&t, &tm);
    v.u = {(u64)tm.tm_year, (u64)tm.tm_mon, (u64)tm.tm_mday,
           (u64)tm.tm_hour, (u64)tm.tm_min, (u64)tm.tm_sec};
    break;
  }
  case SOLID_CON:
  case TSHELL_CON: {
    auto &e = c.op == SOLID_CON ? m.sol : m.tsh;
    v.u.push_back(e.size());
    for (auto &x : e)
      for (u64 y : x)
        v.u.push_back(y - 1);
    break;
  }
  case SHELL_CON:
    v.u.push_back(m.shell.size());
    for (auto &x : m.shell)
      for (u64 y : x)
        v.u.push_back(y - 1);
    break;
  case BEAM_CON: {
    auto minus1 = [&](u64 x) {
      // a word of the file minus one
      return m.ws == 4 ? (u64)(uint32_t)((uint32_t)x - 1) : x - 1;
    };
    for (auto &x : m.beam)
      v.u.insert(v.u.end(), {minus1(x[2]), x[3], x[4]});
    v.u.push_back(m.beam.size());
    for (auto &x : m.beam)
      v.u.insert(v.u.end(), {x[0] - 1, x[1] - 1, x[5] - 1});
    break;
  }
  case COORDS:
  case VEL:
  case ACC:
  case COORDS32:
  case VEL32:
  case ACC32: {
    int what = (c.op - COORDS) % 3;
    if (!present(what))
      return error_val();
    v.u = {m.nn, 0};
    for (size_t i = 0; i < 3 * m.nn; i++) {
      double x = nodal(what, S, i);
      v.d.push_back(c.op >= COORDS32 ? (double)(float)x : x);
    }
    break;
  }
  case ALL_COORDS:
  case ALL_VEL:
  case ALL_ACC:
  case ALL_COORDS32:
  case ALL_VEL32:
  case ALL_ACC32: {
    int what = (c.op - ALL_COORDS) % 3;
    if (!present(what))
      return error_val();
    v.u = {m.nn, ns};
    for (size_t s = 0; s < ns; s++)
      for (size_t i = 0; i < 3 * m.nn; i++) {
        double x = nodal(what, s, i);
        v.d.push_back(c.op >= ALL_COORDS32 ? (double)(float)x : x);
      }
    break;
  }
  case TIME:
    v.d.push_back(m.states[S].w[0]);
    break;
  case TIME32:
    v.d.push_back((float)m.states[S].w[0]);
    break;
  case ALL_TIME:
  case ALL_TIME32:
    v.u = {ns, 0};
    for (auto &s : m.states)
      v.d.push_back(c.op == ALL_TIME ? s.w[0] : (double)(float)s.w[0]);
    break;
  case SOLIDS: {
    v.u.push_back(m.sol.size());
    const double *p = m.states[S].w.data() + m.o_sol();
    for (size_t i = 0; i < m.sol.size(); i++, p += m.nv3d()) {
      size_t o = 0;
      if (m.iosol(0))
        tensor(p), o = 6;
      else
        tensor(zero);
      v.d.push_back(m.iosol(1) ? p[o] : 0.0);
      if (m.istrn && m.neiph >= 6)
        tensor(p + m.nv3d() - 6);
      else
        tensor(zero);
    }
    break;
  }
  case TSHELLS:
  case SHELLS: {
    bool th = c.op == TSHELLS;
    size_t n = th ? m.tsh.size() : m.shell.size();
    u64 stride = th ? m.nv3dt() : m.nv2d();
    v.u.push_back(n);
    const double *base =
        m.states[S].w.data() + (th ? m.o_tsh() : m.o_shell());
    for (size_t i = 0; i < n; i++) {
      const double *p = base + i * stride;
      u64 add = m.maxint > 3 ? m.maxint - 3 : 0;
      v.u.push_back(m.neips);
      v.u.push_back(add);
      for (u64 k = 0; k < 3 + add; k++) {
        // thick shells: the strains lie between the third and fourth surface
        const double *q = k < m.maxint ? p + k * m.ipw() : nullptr;
        if (q && th && k >= 3 && m.istrn)
          q += 12;
        size_t o = 0;
        if (q && m.io(0))
          tensor(q), o = 6;
        else
          tensor(zero);
        v.d.push_back(q && m.io(1) ? q[o] : 0.0);
        o += m.io(1);
        for (u64 h = 0; h < m.neips; h++)
          v.d.push_back(q ? q[o + h] : 0.0);
      }
      if (th) {
        const double *q = p + 3 * m.ipw();
        if (m.istrn && m.maxint >= 3)
          tensor(q), tensor(q + 6);
        else
          tensor(zero), tensor(zero);
      } else {
        const double *res = p + m.maxint * m.ipw();
        const double *thk = res + 8 * m.io(2);
        const double *eps = thk + 4 * m.io(3);
        if (m.istrn)
          tensor(eps), tensor(eps + 6);
        else
          tensor(zero), tensor(zero);
        const double *r = m.io(2) ? res : zero;
        v.d.insert(v.d.end(), r, r + 8);
        r = m.io(3) ? thk : zero;
        v.d.insert(v.d.end(), r, r + 4);
      }
    }
    break;
  }
  case BEAMS: {
    v.u.push_back(m.beam.size());
    const double *p = m.states[S].w.data() + m.o_beam();
    for (size_t i = 0; i < m.beam.size(); i++, p += m.nv1d()) {
      v.u.push_back(m.neipb);
      v.u.push_back(m.beamip);
      v.d.insert(v.d.end(), p, p + m.nv1d()); // same order as the file
    }
    break;
  }
  case PART:
  case PART_BY_ID:
  case PART_NODE_IDS:
  case PART_NODE_INDICES:
  case PART_NUM_NODES:
  case PART_ELEMENTS: {
    u64 index = S;
    if (c.op == PART_BY_ID) {
      bool ok;
      auto p = known_part_ids(m, &ok);
      if (!ok)
        return error_val();
      index = std::find(p.begin(), p.end(), S) - p.begin();
      if (index == p.size())
        return error_val();
    }
    Parts p = part_of(m, index);
    if (p.count() == 0)
      return error_val();
    if (c.op == PART || c.op == PART_BY_ID) {
      auto one = [&](const std::vector<u64> &pos, const std::vector<u64> &id) {
        v.u.push_back(pos.size());
        for (u64 i : pos) {
          v.u.push_back(id_at(m, id, i));
          v.u.push_back(i);
        }
      };
      one(p.sol, m.sol_ids);
      one(p.tsh, m.tsh_ids);
      one(p.beam, m.beam_ids);
      one(p.shell, m.shell_ids);
    } else if (c.op == PART_ELEMENTS) {
      std::vector<u64> all;
      for (u64 i : p.sol)
        all.push_back(id_at(m, m.sol_ids, i));
      for (u64 i : p.tsh)
        all.push_back(id_at(m, m.tsh_ids, i));
      for (u64 i : p.beam)
        all.push_back(id_at(m, m.beam_ids, i));
      for (u64 i : p.shell)
        all.push_back(id_at(m, m.shell_ids, i));
      std::sort(all.begin(), all.end());
      v.u = {all.size(), all.size()};
      v.u.insert(v.u.end(), all.begin(), all.end());
    } else {
      std::set<u64> nodes;
      for (u64 i : p.sol)
        for (int k = 0; k < 8; k++)
          nodes.insert(m.sol[i][k] - 1);
      for (u64 i : p.tsh)
        for (int k = 0; k < 8; k++)
          nodes.insert(m.tsh[i][k] - 1);
      for (u64 i : p.beam)
        for (int k = 0; k < 2; k++)
          nodes.insert(m.beam[i][k] - 1);
      for (u64 i : p.shell)
        for (int k = 0; k < 4; k++)
          nodes.insert(m.shell[i][k] - 1);
      v.u.push_back(nodes.size());
      if (c.op == PART_NODE_IDS) {
        std::set<u64> idset;
        for (u64 x : nodes)
          idset.insert(id_at(m, m.node_ids, x));
        v.u.insert(v.u.end(), idset.begin(), idset.end());
      } else if (c.op == PART_NODE_INDICES)
        v.u.insert(v.u.end(), nodes.begin(), nodes.end());
    }
    break;
  }
  }
  return v;
}

// a call with sensible or out of range arguments
inline Call gen_call(const dg::Model &m, int op) {
  Call c;
  c.op = op;
  if (per_state(op))
    c.arg = m.states.size() && !pbt::chance(1, 12)
                ? pbt::draw(m.states.size())
                : (pbt::chance(1, 2) ? m.states.size()
                                     : m.states.size() + pbt::bits64() / 2);
  else if (op == PART_BY_ID) {
    bool ok;
    auto p = known_part_ids(m, &ok);
    c.arg = p.size() && !pbt::chance(1, 8) ? p[pbt::draw(p.size())]
                                           : pbt::draw(12);
    c.mask = pbt::draw(2);
  } else if (per_part(op)) {
    c.arg = pbt::chance(1, 12) ? m.nmmat + pbt::draw(3) : pbt::draw(m.nmmat);
    if (op == PART_NODE_IDS || op == PART_NODE_INDICES || op == PART_NUM_NODES)
      c.mask = pbt::chance(1, 3) ? 0 : pbt::draw(512);
  }
  return c;
}

struct Handle {
  d3plot_file f;
  bool open_ = false;
  Handle(const std::string &root) {
    f = d3plot_open(root.c_str());
    open_ = true;
  }
  Handle(const Handle &) = delete;
  ~Handle() { close(); }
  void close() {
    if (open_)
      d3plot_close(&f);
    open_ = false;
  }
  d3plot_file *p() { return &f; }
  bool ok() const { return f.error_string == nullptr; }
  std::string error() const { return f.error_string ? f.error_string : ""; }
};
} // namespace da

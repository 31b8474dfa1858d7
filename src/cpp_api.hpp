// The operations of binout_ops.hpp and d3_api.hpp made through the C++ classes,
// with results of the same form.
#pragma once
#include "binout_ops.hpp"
#include "d3_ops.hpp"
#include "cpp/binout.hpp"
#include "cpp/d3plot.hpp"

namespace xa {
using std::string;

// ------------------------------------------------------------------ binout
// C result reduced to what the C++ API can show
inline string c_text(const ba::Read &r, bool timed) {
  if (r.has_error)
    return "error: " + r.error;
  return pbt::fmt("n=%zu steps=%zu ", r.n, timed ? r.steps : 0) +
         pbt::hexdump(r.data.data(), r.data.size());
}
template <class T>
string xread(dro::Binout &b, const string &path) {
  const dro::Array<T> a = b.read<T>(path);
  string data;
  for (const T &v : a)
    data.append((const char *)&v, sizeof v);
  if (data.size() != a.size() * sizeof(T))
    return "iteration has another size";
  if (a.size() && memcmp(data.data(), a.data(), data.size()) != 0)
    return "iteration has other values";
  return pbt::fmt("n=%zu steps=0 ", a.size()) +
         pbt::hexdump(data.data(), data.size());
}
template <class T>
string xtimed(dro::Binout &b, const string &path) {
  auto v = b.read_timed<T>(path);
  string data;
  for (auto &a : v) {
    if (a.size() != v[0].size())
      return "time steps of different sizes";
    for (size_t i = 0; i < a.size(); i++)
      data.append((const char *)&a[i], sizeof(T));
  }
  return pbt::fmt("n=%zu steps=%zu ", v.empty() ? 0 : v[0].size(), v.size()) +
         pbt::hexdump(data.data(), data.size());
}
inline string read(dro::Binout &b, const string &p, int type, bool timed) {
  try {
    switch (type) {
#define R(k, T)                                                                \
  case k:                                                                      \
    return timed ? xtimed<T>(b, p) : xread<T>(b, p);
      R(1, int8_t)
      R(2, int16_t)
      R(3, int32_t)
      R(4, int64_t)
      R(5, uint8_t)
      R(6, uint16_t)
      R(7, uint32_t)
      R(8, uint64_t)
      R(9, float)
      R(10, double)
#undef R
    }
  } catch (const dro::Binout::Exception &e) {
    return string("error: ") + e.what();
  }
  return "";
}

inline string do_op(dro::Binout &b, const bo::Op &o) {
  try {
    switch (o.kind) {
    case 0:
    case 1:
      return read(b, o.path, o.type, o.kind == 1);
    case 2:
      return pbt::fmt("type %d", (int)b.get_type_id(o.path));
    case 3:
      return pbt::fmt("exists %d", b.variable_exists(o.path));
    case 4: {
      string s = "children";
      for (auto &c : b.get_children(o.path))
        s += string(" [") + c.data() + "]";
      return s;
    }
    case 5:
      return pbt::fmt("steps %zu", b.get_num_timesteps(o.path));
    default: {
      dro::BinoutType t = dro::BinoutType::Invalid;
      bool timed = false;
      string p = b.simple_path_to_real(o.path, t, timed).data();
      return pbt::fmt("simple %s %d %d", p.c_str(), (int)t, timed);
    }
    }
  } catch (const dro::Binout::Exception &e) {
    return string("error: ") + e.what();
  }
}
// ------------------------------------------------------------------ d3plot
using da::Call;
using da::u64;
using da::Val;

template <class A> inline void put_ids(Val &v, const A &a) {
  v.u.push_back(a.size());
  for (auto x : a)
    v.u.push_back(x);
}
template <class A> inline void put_con(Val &v, const A &a) {
  v.u.push_back(a.size());
  for (const auto &e : a) {
    for (u64 x : e.node_indices)
      v.u.push_back(x);
    v.u.push_back(e.material_index);
  }
}
template <class A> inline void put_vec(Val &v, const A &a) {
  v.u.push_back(a.size());
  v.u.push_back(0);
  for (const auto &e : a)
    for (auto x : e)
      v.d.push_back(x);
}
template <class A> inline void put_vecs(Val &v, const A &a) {
  v.u.push_back(a.empty() ? 0 : a[0].size());
  v.u.push_back(a.size());
  for (const auto &s : a) {
    if (s.size() != a[0].size())
      v.s.push_back("states of different sizes");
    for (size_t i = 0; i < s.size(); i++)
      for (auto x : s[i])
        v.d.push_back(x);
  }
}
template <class E> inline void put_shell(Val &v, const E &e) {
  const size_t nh = e.num_history_variables;
  v.u.push_back(nh);
  const auto ips = e.get_add_ips();
  v.u.push_back(ips.size());
  auto surface = [&](const d3plot_surface &s, const dro::Array<double> &h) {
    da::put_tensor(v, s.stress);
    v.d.push_back(s.material_dependent_value);
    if (h.size() != nh || (nh && h.data() != s.history_variables))
      v.s.push_back("other history variables");
    for (double x : h)
      v.d.push_back(x);
  };
  surface(e.mid, e.get_mid_history_variables());
  surface(e.inner, e.get_inner_history_variables());
  surface(e.outer, e.get_outer_history_variables());
  for (size_t k = 0; k < ips.size(); k++)
    surface(ips[k], e.get_add_ip_history_variables(k));
  for (size_t k : {ips.size(), (size_t)255})
    if (k >= ips.size()) {
      bool thrown = false;
      try {
        e.get_add_ip_history_variables(k);
      } catch (const dro::D3plot::Exception &x) {
        thrown = *x.what() != 0;
      }
      if (!thrown)
        v.s.push_back("no exception for an invalid integration point");
    }
  da::put_tensor(v, e.inner_strain);
  da::put_tensor(v, e.outer_strain);
}
inline void put_solids(Val &v, const dro::Array<d3plot_solid> &a) {
  v.u.push_back(a.size());
  for (auto &e : a) {
    da::put_tensor(v, e.stress);
    v.d.push_back(e.effective_plastic_strain);
    da::put_tensor(v, e.strain);
  }
}
inline void put_tshells(Val &v, const dro::Array<dro::D3plotThickShell> &a) {
  v.u.push_back(a.size());
  for (auto &e : a)
    put_shell(v, e);
}
inline void put_beams(Val &v, const dro::Array<dro::D3plotBeam> &a) {
  v.u.push_back(a.size());
  for (auto &e : a) {
    const auto ips = e.get_integration_points();
    v.u.push_back(e.num_history_variables);
    v.u.push_back(ips.size());
    v.d.insert(v.d.end(), {e.axial_force, e.s_shear_resultant,
                           e.t_shear_resultant, e.s_bending_moment,
                           e.t_bending_moment, e.torsional_resultant});
    for (auto &ip : ips)
      v.d.insert(v.d.end(),
                 {ip.rs_shear_stress, ip.tr_shear_stress, ip.axial_stress,
                  ip.plastic_strain, ip.axial_strain});
    for (double x : e.get_history_average())
      v.d.push_back(x);
    for (double x : e.get_history_min())
      v.d.push_back(x);
    for (double x : e.get_history_max())
      v.d.push_back(x);
    for (size_t k = 0; k < ips.size(); k++)
      for (double x : e.get_history_variables((uint8_t)k))
        v.d.push_back(x);
    if (ips.size() < 255) {
      bool thrown = false;
      try {
        e.get_history_variables((uint8_t)ips.size());
      } catch (const dro::D3plot::Exception &x) {
        thrown = *x.what() != 0;
      }
      if (!thrown)
        v.s.push_back("no exception for an invalid integration point");
    }
  }
}
inline void put_shells(Val &v, const dro::Array<dro::D3plotShell> &a) {
  v.u.push_back(a.size());
  for (auto &e : a) {
    put_shell(v, e);
    v.d.insert(v.d.end(),
               {e.bending_moment.x, e.bending_moment.y, e.bending_moment.xy,
                e.shear_resultant.x, e.shear_resultant.y,
                e.normal_resultant.x, e.normal_resultant.y,
                e.normal_resultant.xy, e.thickness,
                e.element_dependent_variables[0],
                e.element_dependent_variables[1], e.internal_energy});
  }
}
// part through its getters
inline void put_part(Val &v, dro::D3plotPart &p) {
  auto one = [&](const dro::Array<d3_word> &ids, const dro::Array<size_t> &idx) {
    v.u.push_back(ids.size());
    if (idx.size() != ids.size())
      v.s.push_back("indices and ids differ in number");
    for (size_t i = 0; i < ids.size() && i < idx.size(); i++) {
      v.u.push_back(ids[i]);
      v.u.push_back(idx[i]);
    }
  };
  one(p.get_solid_elements(), p.get_solid_element_indices());
  one(p.get_thick_shell_elements(), p.get_thick_shell_element_indices());
  one(p.get_beam_elements(), p.get_beam_element_indices());
  one(p.get_shell_elements(), p.get_shell_element_indices());
}
template <class T> struct Opt {
  std::unique_ptr<dro::Array<T>> a;
  const dro::Array<T> *p() const { return a.get(); }
};

inline Val call(dro::D3plot &f, const Call &c) {
  Val v;
  const size_t S = c.arg;
  try {
    switch (c.op) {
    case da::NODE_IDS:
      put_ids(v, f.read_node_ids());
      break;
    case da::SOLID_IDS:
      put_ids(v, f.read_solid_element_ids());
      break;
    case da::BEAM_IDS:
      put_ids(v, f.read_beam_element_ids());
      break;
    case da::SHELL_IDS:
      put_ids(v, f.read_shell_element_ids());
      break;
    case da::TSHELL_IDS:
      put_ids(v, f.read_thick_shell_element_ids());
      break;
    case da::ALL_EL_IDS:
      put_ids(v, f.read_all_element_ids());
      break;
    case da::PART_IDS:
      put_ids(v, f.read_part_ids());
      break;
    case da::PART_TITLES: {
      auto t = f.read_part_titles();
      v.u.push_back(t.size());
      for (auto &s : t)
        v.s.push_back(s.str());
      break;
    }
    case da::TITLE:
      v.s.push_back(f.read_title().str());
      break;
    case da::EPOCH:
    case da::RUN_TIME: {
      auto t = f.read_run_time();
      int64_t s = std::chrono::duration_cast<std::chrono::seconds>(
                      t.time_since_epoch())
                      .count();
      if (c.op == da::EPOCH)
        v.u.push_back((u64)s);
      else {
        time_t tt = std::chrono::system_clock::to_time_t(t);
        struct tm tm;
        localtime_r(&tt, &tm);
        v.u = {(u64)tm.tm_year, (u64)tm.tm_mon, (u64)tm.tm_mday,
               (u64)tm.tm_hour, (u64)tm.tm_min, (u64)tm.tm_sec};
      }
      break;
    }
    case da::SOLID_CON:
      put_con(v, f.read_solid_elements());
      break;
    case da::TSHELL_CON:
      put_con(v, f.read_thick_shell_elements());
      break;
    case da::SHELL_CON:
      put_con(v, f.read_shell_elements());
      break;
    case da::BEAM_CON: {
      auto a = f.read_beam_elements();
      for (auto &e : a)
        v.u.insert(v.u.end(),
                   {e.orientation_node_index, e._null[0], e._null[1]});
      put_con(v, a);
      break;
    }
    case da::COORDS:
      put_vec(v, f.read_node_coordinates(S));
      break;
    case da::VEL:
      put_vec(v, f.read_node_velocity(S));
      break;
    case da::ACC:
      put_vec(v, f.read_node_acceleration(S));
      break;
    case da::COORDS32:
      put_vec(v, f.read_node_coordinates_32(S));
      break;
    case da::VEL32:
      put_vec(v, f.read_node_velocity_32(S));
      break;
    case da::ACC32:
      put_vec(v, f.read_node_acceleration_32(S));
      break;
    case da::TIME:
      v.d.push_back(f.read_time(S));
      break;
    case da::TIME32:
      v.d.push_back(f.read_time_32(S));
      break;
    case da::ALL_COORDS:
      put_vecs(v, f.read_all_node_coordinates());
      break;
    case da::ALL_VEL:
      put_vecs(v, f.read_all_node_velocity());
      break;
    case da::ALL_ACC:
      put_vecs(v, f.read_all_node_acceleration());
      break;
    case da::ALL_COORDS32:
      put_vecs(v, f.read_all_node_coordinates_32());
      break;
    case da::ALL_VEL32:
      put_vecs(v, f.read_all_node_velocity_32());
      break;
    case da::ALL_ACC32:
      put_vecs(v, f.read_all_node_acceleration_32());
      break;
    case da::ALL_TIME:
    case da::ALL_TIME32: {
      if (c.op == da::ALL_TIME) {
        auto a = f.read_all_time();
        v.u = {a.size(), 0};
        for (double x : a)
          v.d.push_back(x);
      } else {
        auto a = f.read_all_time_32();
        v.u = {a.size(), 0};
        for (float x : a)
          v.d.push_back(x);
      }
      break;
    }
    case da::SOLIDS:
      put_solids(v, f.read_solids_state(S));
      break;
    case da::TSHELLS:
      put_tshells(v, f.read_thick_shells_state(S));
      break;
    case da::BEAMS:
      put_beams(v, f.read_beams_state(S));
      break;
    case da::SHELLS:
      put_shells(v, f.read_shells_state(S));
      break;
    case da::PART: {
      auto p = f.read_part(S);
      put_part(v, p);
      break;
    }
    case da::PART_BY_ID: {
      dro::Array<d3_word> ids;
      if (c.mask & 1)
        ids = f.read_part_ids();
      auto p = c.mask & 1 ? f.read_part_by_id(S, ids) : f.read_part_by_id(S);
      put_part(v, p);
      break;
    }
    case da::PART_NODE_IDS:
    case da::PART_NODE_INDICES:
    case da::PART_NUM_NODES: {
      auto p = f.read_part(S);
      Opt<d3_word> n, i1, i2, i3, i4;
      Opt<d3plot_solid_con> sc;
      Opt<d3plot_beam_con> bc;
      Opt<d3plot_shell_con> hc;
      Opt<d3plot_thick_shell_con> tc;
      // like the C calls: the error of the last one of them counts
      bool failed = false;
      string msg;
#define LOAD(bit, var, T, fn)                                                  \
  if (c.mask & bit) {                                                          \
    failed = false;                                                            \
    try {                                                                      \
      var.a.reset(new dro::Array<T>(f.fn()));                                  \
    } catch (const dro::D3plot::Exception &e) {                                \
      failed = true;                                                           \
      msg = e.what();                                                          \
    }                                                                          \
  }
      LOAD(1, n, d3_word, read_node_ids)
      LOAD(2, i1, d3_word, read_solid_element_ids)
      LOAD(4, i2, d3_word, read_beam_element_ids)
      LOAD(8, i3, d3_word, read_shell_element_ids)
      LOAD(16, i4, d3_word, read_thick_shell_element_ids)
      LOAD(32, sc, d3plot_solid_con, read_solid_elements)
      LOAD(64, bc, d3plot_beam_con, read_beam_elements)
      LOAD(128, hc, d3plot_shell_con, read_shell_elements)
      LOAD(256, tc, d3plot_thick_shell_con, read_thick_shell_elements)
#undef LOAD
      if (failed) {
        v.err = true;
        v.msg = msg;
        break;
      }
      if (c.op == da::PART_NODE_IDS)
        put_ids(v, c.mask ? p.get_node_ids(f, i1.p(), i2.p(), i3.p(), i4.p(),
                                           n.p(), sc.p(), bc.p(), hc.p(), tc.p())
                          : p.get_node_ids(f));
      else if (c.op == da::PART_NODE_INDICES)
        put_ids(v, c.mask & ~1ull
                       ? p.get_node_indices(f, i1.p(), i2.p(), i3.p(), i4.p(),
                                            sc.p(), bc.p(), hc.p(), tc.p())
                       : p.get_node_indices(f));
      else
        v.u.push_back(c.mask & ~1ull
                          ? p.get_num_nodes(f, i1.p(), i2.p(), i3.p(), i4.p(),
                                            sc.p(), bc.p(), hc.p(), tc.p())
                          : p.get_num_nodes(f));
      break;
    }
    case da::PART_ELEMENTS: {
      auto p = f.read_part(S);
      v.u.push_back(p.get_num_elements());
      put_ids(v, p.get_all_element_ids());
      break;
    }
    }
  } catch (const dro::D3plot::Exception &e) {
    Val x;
    x.err = true;
    x.msg = e.what();
    return x;
  }
  return v;
}
// the C result as the C++ API has to show it
inline void as_cpp(Val &v, const d3plot_file &f, int op) {
  if (v.err) {
    Val x;
    x.err = true;
    x.msg = f.error_string ? f.error_string : "";
    v = x;
    return;
  }
  if (op == da::PART_TITLES || op == da::TITLE)
    for (auto &s : v.s)
      while (!s.empty() && s.back() == ' ')
        s.pop_back();
  // without states or nodes the split arrays can not show the other number
  if (op >= da::ALL_COORDS && op <= da::ALL_ACC32 && v.u.size() == 2 &&
      v.u[1] == 0)
    v.u[0] = 0;
}
} // namespace xa

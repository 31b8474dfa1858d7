// The words and numbers a printed value consists of, in order. Punctuation is up
// to the library.
#pragma once
#include "pbt.hpp"
#include <cctype>
#include <sstream>
#include <string>

namespace pt {
struct Text {
  std::ostringstream o;
  Text &operator()(const char *name) {
    o << name << " ";
    return *this;
  }
  template <class T> Text &operator()(const T &v) {
    o << v << " ";
    return *this;
  }
};
inline std::string tokens(const std::string &s) {
  std::string r;
  for (unsigned char c : s)
    if (isalnum(c) || c == '.' || c == '+' || c == '-')
      r += (char)tolower(c);
    else if (!r.empty() && r.back() != ' ')
      r += ' ';
  while (!r.empty() && r.back() == ' ')
    r.pop_back();
  return r;
}
template <class T> void tensor(Text &t, const T &v) {
  t("X")(v.x)("Y")(v.y)("Z")(v.z)("XY")(v.xy)("YZ")(v.yz)("XZ")(v.xz);
}
template <class T> void surface(Text &t, const T &v) {
  t("Stress");
  tensor(t, v.stress);
  t("Effective Plastic Strain")(v.effective_plastic_strain);
}
template <class T> void solid(Text &t, const T &v) {
  surface(t, v);
  t("Strain");
  tensor(t, v.strain);
}
template <class T> void thick_shell(Text &t, const T &v) {
  t("Mid");
  surface(t, v.mid);
  t("Inner");
  surface(t, v.inner);
  t("Outer");
  surface(t, v.outer);
  t("Inner Strain");
  tensor(t, v.inner_strain);
  t("Outer Strain");
  tensor(t, v.outer_strain);
}
template <class T> void beam(Text &t, const T &v) {
  t("Axial Force")(v.axial_force)("S Shear Resultant")(v.s_shear_resultant);
  t("T Shear Resultant")(v.t_shear_resultant)("S Bending Moment")(v.s_bending_moment);
  t("T Bending Moment")(v.t_bending_moment)("Torsional Resultant")(v.torsional_resultant);
}
template <class T> void shell(Text &t, const T &v) {
  thick_shell(t, v);
  t("Bending Moment")(v.bending_moment.x)(v.bending_moment.y)(v.bending_moment.xy);
  t("Shear Resultant")(v.shear_resultant.x)(v.shear_resultant.y);
  t("Normal Resultant")(v.normal_resultant.x)(v.normal_resultant.y)(v.normal_resultant.xy);
  t("Thickness")(v.thickness)("Element Dependent Variables");
  t(v.element_dependent_variables[0])(v.element_dependent_variables[1]);
  t("Internal Energy")(v.internal_energy);
}
template <class T> void con(Text &t, const T &v) {
  for (auto i : v.node_indices)
    t(i);
  t(v.material_index);
}
template <class T> void beam_con(Text &t, const T &v) {
  for (auto i : v.node_indices)
    t(i);
  t(v.orientation_node_index)(v.material_index);
}
} // namespace pt

// What a key file gives, as text: through C with a callback and through C++.
#pragma once
#include "key_gen.hpp"
#include "cpp/key.hpp"
#include <optional>

namespace xk {
using std::string;
using std::vector;

inline string text_of(const kg::Called &c) {
  string s = c.has_warning ? "warning: " + c.warning + "\n" : "";
  for (auto &e : c.ev)
    s += e.file + pbt::fmt(":%zu ", e.line_lo) + e.keyword + "|" +
         (e.has_card ? e.card : "(none)") + pbt::fmt("|%zd\n", (ssize_t)e.index);
  return s + (c.has_error ? "error: " + c.error : "");
}
template <class T> string parsed(const dro::Card &c, uint8_t w) {
  try {
    if constexpr (std::is_same_v<T, dro::String>)
      return c.parse<dro::String>(w).data();
    else
      return pbt::fmt("%.17g", (double)c.parse<T>(w));
  } catch (const dro::KeyFile::Exception &e) {
    return string("error: ") + e.what();
  }
}
inline string all_of(const string &file, const kg::Config &cfg) {
  vector<fs::path> extra(cfg.extra.begin(), cfg.extra.end());
  dro::KeyFile::ParseConfig conf(cfg.includes, cfg.ignore, extra);
  std::optional<dro::String> w;
  string s;
  try {
    dro::Keywords ks = dro::KeyFile::parse(file, conf, &w);
    for (auto &k : ks)
      s += string("*") + k.name + pbt::fmt(" %zu\n", k.num_cards);
    for (size_t i = 0; i < ks.size() && i < 6; i++) {
      dro::KeywordSlice same = ks[ks.data()[i].name];
      dro::Keyword k = same[same.size() - 1];
      for (size_t j = 0; j < k.num_cards() && j < 3; j++) {
        dro::Card c = k[j];
        c.begin(10);
        s += parsed<int32_t>(c, 10) + "|" + parsed<double>(c, 10) + "|" +
             parsed<dro::String>(c, 20) + "\n";
      }
    }
  } catch (const dro::KeyFile::Exception &e) {
    s += string("error: ") + e.what();
  } catch (const std::exception &e) {
    s += string("exception: ") + e.what();
  }
  return s + (w ? string("warning: ") + w->data() : "");
}
} // namespace xk

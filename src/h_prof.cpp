// T03: the build that measures run times (PROFILING) against the default one,
// and the measurements against a model with a clock that the cases move.
#include "peer_calls.hpp"
#include <ctime>
#include <fcntl.h>
#include <map>
#include <memory>
#include <profiling.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

namespace {
clock_t now = 1000, per_call = 1;
}
extern "C" clock_t clock() noexcept {
  clock_t t = now;
  now += per_call;
  return t;
}

namespace {
// A measurement has to be ended while it is the innermost one; ending an outer one
// hides one that was left running.
string crossed;
string still_running() {
  if (!crossed.empty())
    return crossed;
  if (!profiling_context.current_stack)
    return "";
  return pbt::fmt("a measurement of %s is still running\n",
                  profiling_context.current_stack->execution_name);
}
} // namespace
extern "C" {
void __real__END_PROFILE_SECTION(const char *, profiling_execution_t);
void __wrap__END_PROFILE_SECTION(const char *name, profiling_execution_t e) {
  const profiling_stack_t *cur = profiling_context.current_stack;
  if (crossed.empty() && !profiling_context.disable && cur != e.current_stack)
    crossed = pbt::fmt("the measurement of %s ends while %s is running\n", name,
                       cur ? cur->execution_name : "nothing");
  __real__END_PROFILE_SECTION(name, e);
}
}
namespace {
void reset() {
  crossed.clear();
  profiling_context.current_stack = nullptr;
  profiling_context.disable = 0;
  profiling_context.disable_stacking = 0;
  END_PROFILING(nullptr);
  peer::after_call = still_running;
}

// what END_PROFILING prints is kept out of the way
struct Ended {
  string out, err;
};
Ended end_profiling(const char *file) {
  string o = pbt::dir() + "/stdout", e = pbt::dir() + "/stderr";
  fflush(stdout);
  fflush(stderr);
  int so = dup(1), se = dup(2);
  int no = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  int ne = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(no, 1);
  dup2(ne, 2);
  close(no);
  close(ne);
  END_PROFILING(file);
  fflush(stdout);
  fflush(stderr);
  dup2(so, 1);
  dup2(se, 2);
  close(so);
  close(se);
  return {pbt::read_file(o), pbt::read_file(e)};
}

// ---- the report ----------------------------------------------------------------
struct Node {
  string name;
  double ms = 0;
  vector<std::unique_ptr<Node>> sub;
  Node *parent = nullptr;
  size_t begins = 0; // measurements begun while it runs, including its own
};
struct Row {
  size_t level;
  string name;
  double ms;
};
vector<Row> rows_of(const string &text) {
  vector<Row> rows;
  vector<string> lines;
  size_t at = 0;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    REQUIRE(e != string::npos, "the last line of the report is not ended");
    lines.push_back(text.substr(at, e - at));
    at = e + 1;
  }
  REQUIRE(lines.size() >= 2, "the report has %zu lines", lines.size());
  REQUIRE(lines[0].find("-- Profiling --") != string::npos, "first line of the report: %s",
          lines[0].c_str());
  REQUIRE(lines.back() == string(lines.back().size(), '-') && lines.back().size() > 10,
          "last line of the report: %s", lines.back().c_str());
  for (size_t i = 1; i + 1 < lines.size(); i++) {
    const string &l = lines[i];
    REQUIRE(l.size() >= 42 + 7 + 5 && l.substr(0, 2) == "| " && l.substr(l.size() - 5) == " ms |",
            "row of the report: %s", l.c_str());
    Row r;
    string f = l.substr(2, 40), t = l.substr(42, l.size() - 42 - 5);
    r.level = std::min(f.find_first_not_of('-'), f.size());
    size_t e = f.find(' ');
    r.name = f.substr(r.level, e == string::npos ? e : e - r.level);
    REQUIRE(e == string::npos || f.find_first_not_of('.', e + 1) == string::npos,
            "row of the report: %s", l.c_str());
    size_t k = t.find_first_not_of(". ");
    REQUIRE(k != string::npos, "row of the report: %s", l.c_str());
    char *end;
    r.ms = strtod(t.c_str() + k, &end);
    REQUIRE(!*end && (k == 0 || t.substr(0, k) == string(k - 1, '.') + " "),
            "time in a row of the report: %s", l.c_str());
    rows.push_back(r);
  }
  return rows;
}
// shape of any report: nesting, one row per name in its group, longest first
void check_shape(const vector<Row> &rows) {
  vector<std::map<string, bool>> seen;
  vector<double> last;
  for (size_t i = 0; i < rows.size(); i++) {
    const Row &r = rows[i];
    REQUIRE(i ? r.level <= rows[i - 1].level + 1 : r.level == 0, "row %zu (%s) is nested too deep",
            i, r.name.c_str());
    bool first = seen.size() <= r.level;
    if (!first) {
      seen.resize(r.level + 1);
      last.resize(r.level + 1);
    } else {
      seen.emplace_back();
      last.push_back(0);
    }
    REQUIRE(!seen[r.level].count(r.name), "%s has two rows in its group", r.name.c_str());
    seen[r.level][r.name] = true;
    REQUIRE(first || r.ms <= last[r.level] + 1e-9,
            "%s (%.1f ms) is listed after something shorter (%.1f ms)", r.name.c_str(), r.ms,
            last[r.level]);
    last[r.level] = r.ms;
    REQUIRE(r.ms >= -0.05, "%s took %.1f ms", r.name.c_str(), r.ms);
  }
}

// ---- measurements against a model ------------------------------------------------
const char *NAMES[] = {"a", "ab", "b", "abc", "read", "read_header", "z", "A", "_", "open",
                       "a_function_with_a_rather_long_name_", "0"};
struct Running {
  const char *name;
  profiling_execution_t e;
  Node *node; // null if it is not measured on its own
  clock_t began;
  double work;
};
Node *child(Node *p, const char *name) {
  for (auto &s : p->sub)
    if (s->name == name)
      return s.get();
  p->sub.emplace_back(new Node);
  p->sub.back()->name = name;
  p->sub.back()->parent = p;
  return p->sub.back().get();
}
void match(const Node &n, const vector<Row> &rows, size_t &at, size_t level, double overhead_ms) {
  // the rows of one group may come in any order as far as the times are equal
  // a measurement costs at most two clock readings of the time around it
  vector<bool> used(n.sub.size());
  for (size_t k = 0; k < n.sub.size(); k++) {
    REQUIRE(at < rows.size(), "the report ends before the %zu rows below %s", n.sub.size(),
            n.name.c_str());
    const Row &r = rows[at];
    REQUIRE(r.level == level, "row %s has level %zu, expected %zu", r.name.c_str(), r.level, level);
    size_t i = 0;
    string want;
    for (; i < n.sub.size(); i++) {
      want = n.sub[i]->name.substr(0, level >= 40 ? 0 : 40 - level);
      if (!used[i] && want == r.name)
        break;
    }
    REQUIRE(i < n.sub.size(), "nothing called %s was measured below %s", r.name.c_str(),
            n.name.empty() ? "the top" : n.name.c_str());
    used[i] = true;
    const Node &c = *n.sub[i];
    double lo = c.ms, hi = c.ms + 2 * overhead_ms * c.begins;
    REQUIRE(r.ms > lo - 0.06 && r.ms < hi + 0.06, "%s took %.1f ms, expected %.2f to %.2f",
            r.name.c_str(), r.ms, lo, hi);
    at++;
    match(c, rows, at, level + 1, overhead_ms);
  }
}

void model_case() {
  pbt::label("measurements");
  const string file = pbt::dir() + "/report.txt";
  size_t rounds = 1 + draw(3), most = 0;
  bool deep = false;
  for (size_t round = 0; round < rounds; round++) {
    per_call = chance(1, 3) ? 1 + (clock_t)draw(300) : 0;
    double overhead = per_call * 1000.0 / CLOCKS_PER_SEC;
    bool flat = profiling_context.disable_stacking = chance(1, 5);
    pbt::label_if(flat, "only the outermost level is measured");
    Node top;
    vector<Running> run;
    size_t n = 1 + pbt::sized(120), num = 2 + draw(sizeof NAMES / sizeof *NAMES - 1);
    auto work = [&](clock_t ticks) {
      now += ticks;
      for (auto &r : run)
        r.work += ticks * 1000.0 / CLOCKS_PER_SEC;
    };
    auto end = [&] {
      Running r = run.back();
      _END_PROFILE_SECTION(r.name, r.e);
      run.pop_back();
      if (r.node)
        r.node->ms += r.work;
      Node *cur = nullptr;
      for (auto &o : run)
        cur = o.node ? o.node : cur;
      REQUIRE(cur ? profiling_context.current_stack &&
                        profiling_context.current_stack->execution_name == cur->name
                  : !profiling_context.current_stack,
              "after the end of %s the measurement of %s is running, expected %s", r.name,
              profiling_context.current_stack ? profiling_context.current_stack->execution_name
                                              : "nothing",
              cur ? cur->name.c_str() : "nothing");
    };
    auto ask_while_running = [&] {
      pbt::label("report asked for while something runs");
      string want = "Profiling is still running!\n";
      size_t k = 0;
      for (size_t i = run.size(); i-- > 0;)
        if (run[i].node)
          want += string(k++, '-') + run[i].name + "\n";
      Ended e = end_profiling(file.c_str());
      REQUIRE(e.err == want, "report while something runs:\n%s\nexpected\n%s", e.err.c_str(),
              want.c_str());
      REQUIRE(access(file.c_str(), F_OK) != 0, "a report is written while something runs");
    };
    bool wide = chance(1, 3);
    for (size_t i = 0; i < n; i++) {
      switch (pbt::weighted({4, (unsigned)(wide ? 5 : 2), 4, 1})) {
      case 0: {
        const char *name = NAMES[draw(num)];
        Node *cur = nullptr;
        for (auto &o : run) {
          if (o.node)
            cur = o.node;
        }
        bool own = !cur || (!flat && cur->name != name);
        Running r{name, _BEGIN_PROFILE_SECTION(name), nullptr, now, 0};
        if (own)
          r.node = child(cur ? cur : &top, name);
        run.push_back(r);
        for (auto &o : run)
          if (o.node)
            o.node->begins++;
        deep |= run.size() >= 4;
        break;
      }
      case 1:
        if (!run.empty())
          end();
        break;
      case 2:
        work(100 * (clock_t)draw(60));
        break;
      default:
        if (!run.empty() && chance(1, 6))
          ask_while_running();
      }
    }
    while (!run.empty())
      end();
    size_t total = 0;
    std::function<void(const Node &)> count = [&](const Node &x) {
      total += x.sub.size();
      for (auto &s : x.sub)
        count(*s);
    };
    count(top);
    most = std::max(most, total);
    if (chance(1, 8)) {
      // a report that can not be written loses nothing
      Ended e = end_profiling((pbt::dir() + "/missing/report.txt").c_str());
      REQUIRE(total == 0 || e.err.find("Failed to open profiling file") != string::npos,
              "report in a missing folder: %s%s", e.out.c_str(), e.err.c_str());
    }
    Ended e = end_profiling(file.c_str());
    REQUIRE(e.err.empty(), "report: %s", e.err.c_str());
    if (total == 0) {
      REQUIRE(access(file.c_str(), F_OK) != 0, "a report about nothing is written");
      continue;
    }
    vector<Row> rows = rows_of(pbt::read_file(file));
    check_shape(rows);
    size_t at = 0;
    match(top, rows, at, 0, overhead);
    REQUIRE(at == rows.size(), "the report has %zu rows, expected %zu", rows.size(), at);
    unlink(file.c_str());
    REQUIRE(profiling_context.num_execution_stacks == 0, "measurements are kept after the report");
  }
  profiling_context.disable_stacking = 0;
  pbt::sample(pbt::fmt("measurements: %zu rounds, up to %zu rows", rounds, most));
  if (most >= 3)
    pbt::nontrivial();
  pbt::label_if(deep, "nested four deep");
}

void peer_case() {
  per_call = 1 + (clock_t)draw(1000);
  string own = peer::run();
  pbt::sample(peer::description);
  pbt::label_if(peer::failing > 0, "some call fails");
  if (peer::calls >= 4 && peer::failing < peer::calls)
    pbt::nontrivial();
  peer::compare("the build that measures", own, "the default build",
                pbt::peer_transcript("PBT_PEER_DEFAULT", "t03"));
  REQUIRE(still_running().empty(), "%s", still_running().c_str());
  const string file = pbt::dir() + "/report.txt";
  Ended e = end_profiling(file.c_str());
  REQUIRE(e.err.empty(), "report: %s", e.err.c_str());
  REQUIRE(access(file.c_str(), F_OK) == 0, "no report is written");
  vector<Row> rows = rows_of(pbt::read_file(file));
  check_shape(rows);
  const string &d = peer::description;
  const char *must = d.compare(0, 7, "binout:") == 0    ? "binout_open"
                     : d.compare(0, 9, "key files") == 0 ? "key_file_parse"
                                                         : "d3plot_open";
  bool found = false;
  for (auto &r : rows)
    found |= r.level == 0 && r.name.find(must) == 0;
  REQUIRE(found, "%s is not among the measured functions", must);
}
} // namespace

namespace {
// the generators of the other properties make the calls
void balance_case() {
  static const char *const IDS[] = {"B01", "B03", "B04", "B05", "B06", "B07", "D01", "D02",
                                    "D04", "D06", "D07", "D08", "D09", "D10", "K01", "K02",
                                    "K04", "K05", "K06", "K07", "K08", "R01"};
  const char *id = chance(1, 3) ? "R01" : IDS[draw(sizeof IDS / sizeof *IDS)];
  pbt::label("calls of the check of another property");
  per_call = 1;
  try {
    pbt::check_of(id)();
  } catch (const pbt::Fail &f) {
    pbt::note("the check of %s: %s", id, f.msg.c_str()); // not the subject here
  }
  REQUIRE(still_running().empty(), "%s", still_running().c_str());
  Ended e = end_profiling(nullptr);
  REQUIRE(e.err.empty() && !profiling_context.execution_stacks, "end of the measurements: %s",
          e.err.c_str());
}
} // namespace

PROPERTY(T03, 40000, 1500000,
         "the calls of T02 made in the build that measures run times and in the "
         "default build; and histories of up to 120 begun and ended measurements "
         "with a clock moved by the case, several rounds, reports asked for at any "
         "time; and the calls of other checks (also with failing file operations); "
         "non-trivial: at least 4 calls, one of them successful, at least 3 measured "
         "rows, or by the rule of the other check") {
  reset();
  switch (draw(3)) {
  case 0:
    return peer_case();
  case 1:
    return model_case();
  default:
    balance_case();
  }
}

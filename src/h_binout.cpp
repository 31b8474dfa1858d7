#include "binout_ops.hpp"
using namespace bo;
using pbt::chance;

static void classify(const File &f, const vector<Rec> &recs) {
  for (auto &s : f.stats)
    pbt::label_if(s.second > 0, s.first.c_str());
  pbt::label_if(f.w.len != 8 || f.w.cmd != 1 || f.w.typ != 1,
                "unusual field widths");
  bool step = false, again = false;
  std::set<string> seen;
  for (auto &r : recs) {
    for (auto &c : r.folder)
      step |= is_d(c);
    again |= !seen.insert(join(r.folder) + "/" + r.name).second;
  }
  pbt::label_if(step, "time step folders");
  pbt::label_if(again, "variable recorded twice");
}
static bool ascii(const string &s) {
  for (unsigned char c : s)
    if (c >= 128)
      return false;
  return true;
}

// ---------------------------------------------------------------------------------
PROPERTY(B01, 60000, 1500000,
         "random recording sequences serialised with random field widths, "
         "absolute/relative CD records and other record kinds; non-trivial: at "
         "least 3 variables in at least 2 folders and (relative CD, unusual "
         "widths, other record kinds or a variable recorded twice)") {
  TreeOpts o;
  auto recs = gen_recs(o);
  reorder(recs);
  File f = serialise(recs);
  Node root;
  apply(&root, f);
  classify(f, f.recs);
  string path = pbt::dir() + "/binout0000";
  if (f.w.len >= 5 && chance(1, 120)) {
    // a record of gigabytes somewhere in the file
    size_t i = pbt::draw(f.marks.size() + 1);
    size_t at = i < f.marks.size() ? f.marks[i].at : f.bytes.size();
    uint64_t hole = (1ull << 31) + pbt::draw(3ull << 30);
    string head;
    put(head, f.w.len + f.w.cmd + hole, f.w.len);
    put(head, pbt::chance(1, 2) ? 7 : 1, f.w.cmd);
    if (!pbt::write_sparse(path, {{f.bytes.substr(0, at) + head, hole},
                                  {f.bytes.substr(at), 0}}))
      pbt::discard();
    pbt::label("record of more than 2 GB in between");
  } else
    pbt::write_file(path, f.bytes);
  pbt::sample(describe(f.recs));
  vector<Path> vars, folders;
  Path at;
  all_paths(&root, at, vars, folders);
  std::set<string> fs;
  for (auto &r : f.recs)
    fs.insert(join(r.folder));
  if (vars.size() >= 3 && fs.size() >= 2 &&
      (f.stats["relative CD"] || f.stats["other record kinds"] ||
       f.w.len != 8 || f.w.cmd != 1 || f.w.typ != 1 ||
       vars.size() < f.recs.size()))
    pbt::nontrivial();

  ba::Handle h(path);
  bool null;
  string e = h.open_error(&null);
  REQUIRE(null, "opening a well-formed file reports: %s", e.c_str());
  for (auto &v : vars) {
    const Node *n = lookup(&root, v);
    string p = spell(v);
    auto r = ba::read(h.p(), p, n->type);
    if (n->data.empty()) {
      REQUIRE(!r.ok && r.has_error, "empty variable %s: ok=%d error=%d",
              p.c_str(), r.ok, r.has_error);
      pbt::label("empty variable");
    } else {
      REQUIRE(r.ok, "reading %s as its type %d failed: %s", p.c_str(), n->type,
              r.error.c_str());
      REQUIRE(!r.has_error, "reading %s left the error %s", p.c_str(),
              r.error.c_str());
      REQUIRE(r.n == n->data.size() / tsize(n->type),
              "%s: %zu values reported, %zu recorded", p.c_str(), r.n,
              n->data.size() / tsize(n->type));
      REQUIRE(r.data == n->data, "%s: returned %s, recorded %s", p.c_str(),
              pbt::hexdump(r.data.data(), r.data.size()).c_str(),
              pbt::hexdump(n->data.data(), n->data.size()).c_str());
    }
    int wrong = gen_type();
    if (wrong != n->type) {
      r = ba::read(h.p(), p, wrong);
      REQUIRE(!r.ok && r.has_error && !r.error.empty(),
              "%s of type %d read as type %d: ok=%d error=%d", p.c_str(),
              n->type, wrong, r.ok, r.has_error);
    }
    if (chance(1, 3)) {
      Path q = v;
      switch (pbt::draw(4)) {
      case 0:
        q.back() += gen_name();
        break;
      case 1:
        q.back().pop_back();
        if (q.back().empty())
          q.back() = "zz";
        break;
      case 2:
        q.push_back(gen_name());
        break;
      default:
        q = {gen_name()};
      }
      const Node *m = lookup(&root, q);
      if (!m || m->folder) {
        r = ba::read(h.p(), join(q), n->type);
        REQUIRE(!r.ok && r.has_error,
                "path %s is no variable: ok=%d error=%d", join(q).c_str(),
                r.ok, r.has_error);
      }
    }
  }
  if (!folders.empty()) {
    auto &p = folders[pbt::draw(folders.size())];
    auto r = ba::read(h.p(), join(p), gen_type());
    REQUIRE(!r.ok && r.has_error, "folder %s was read", join(p).c_str());
    r = ba::read(h.p(), "/", gen_type());
    REQUIRE(!r.ok && r.has_error, "the root folder was read");
  }
  bool hi = false;
  for (auto &v : vars)
    hi |= !ascii(join(v));
  pbt::label_if(hi, "names with bytes above 127");
}

// ---------------------------------------------------------------------------------
PROPERTY(B02, 60000, 1200000,
         "random step folders (sub folders, metadata, shuffled recording "
         "order), half of them with steps that lack a variable or hold it with "
         "other size/type, or have additional variables; non-trivial: at least "
         "2 steps and at least 2 values") {
  TreeOpts o;
  o.disagree = chance(1, 2);
  o.huge = true;
  vector<Rec> recs;
  size_t tops = 1 + pbt::draw(2);
  for (size_t t = 0; t < tops; t++) {
    Path p = {gen_name()};
    if (p[0] == "metadata")
      continue;
    if (chance(1, 5))
      p.push_back(gen_name());
    gen_timed(recs, p, o);
  }
  make_consistent(recs);
  if (recs.size() < 2000) // the directory sorts by insertion
    reorder(recs);
  File f = serialise(recs, chance(1, 4));
  Node root;
  apply(&root, f);
  string path = pbt::dir() + "/binout0000";
  pbt::write_file(path, f.bytes);
  pbt::sample(describe(f.recs));
  vector<Path> vars, folders;
  Path at;
  all_paths(&root, at, vars, folders);
  std::set<string> done;
  ba::Handle h(path);
  vector<Path> queries;
  for (auto &v : vars) {
    Path q = strip(v);
    if (done.insert(join(q)).second)
      queries.push_back(q);
    if (chance(1, 20)) {
      if (chance(1, 2))
        queries.push_back(v); // the real path is not a timed variable
      else {
        // a component that does not exist in front of the variable
        q.insert(q.end() - 1, gen_name() + "_no");
        queries.push_back(q);
      }
    }
  }
  if (recs.size() >= 2000) {
    pbt::shuffle(queries);
    queries.resize(std::min<size_t>(queries.size(), 6));
  }
  for (auto &q : queries) {
    if (q.empty())
      continue;
    Timed t = read_timed(&root, q);
    string p = spell(q);
    int type = t.type ? t.type : gen_type();
    auto r = ba::read_timed(h.p(), p, type);
    if (!t.ok) {
      REQUIRE(!r.ok && r.has_error,
              "timed read of %s has to fail (%s): ok=%d error=%d", p.c_str(),
              t.why, r.ok, r.has_error);
      pbt::label(t.why);
      continue;
    }
    pbt::label("timed read");
    if (t.steps >= 2 && t.values >= 2)
      pbt::nontrivial();
    REQUIRE(r.ok, "timed read of %s failed: %s", p.c_str(), r.error.c_str());
    REQUIRE(!r.has_error, "timed read of %s left the error %s", p.c_str(),
            r.error.c_str());
    REQUIRE(r.n == t.values && r.steps == t.steps,
            "%s: %zu x %zu values reported, %zu x %zu recorded", p.c_str(),
            r.steps, r.n, t.steps, t.values);
    REQUIRE(r.data == t.data, "%s: timed values differ from the recorded ones",
            p.c_str());
    int wrong = gen_type();
    if (wrong != t.type && chance(1, 2)) {
      r = ba::read_timed(h.p(), p, wrong);
      REQUIRE(!r.ok && r.has_error,
              "%s of type %d read (timed) as type %d: ok=%d error=%d",
              p.c_str(), t.type, wrong, r.ok, r.has_error);
      pbt::label("timed read with another type");
    }
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(B03, 50000, 1000000,
         "random trees, recorded in random order, every folder and variable "
         "queried plus absent paths; non-trivial: at least 3 folders and at "
         "least 5 entries in one folder or a time step folder") {
  TreeOpts o;
  o.disagree = chance(1, 3);
  o.max_values = 3;
  auto recs = gen_recs(o);
  if (chance(1, 6)) { // one wide folder
    size_t n = 20 + pbt::draw(60);
    for (size_t i = 0; i < n; i++) {
      Rec r;
      r.folder = {"wide"};
      r.name = pbt::fmt("%s%zu", chance(1, 2) ? "v" : "V", (size_t)pbt::draw(500));
      r.type = gen_type();
      r.data = gen_data(r.type, 1);
      recs.push_back(r);
    }
    make_consistent(recs);
  }
  if (chance(1, 5)) { // time step folders with others between them
    const char *const others[] = {"d",        "d00000x", "d000001x", "d0000x5", "d00000",
                                  "d0000015", "D000002", "d000002.", "e",       "a",
                                  "d00000a",  "d000001~"};
    bool vars = chance(1, 3);
    for (size_t i = 0, n = 1 + pbt::draw(9); i < n; i++) {
      Rec r;
      r.folder = {"between"};
      string name = chance(1, 2) ? dname(pbt::draw(7), 6) : string(others[pbt::draw(12)]);
      if (vars && chance(1, 3))
        r.name = name; // also a variable named like a time step
      else {
        r.folder.push_back(name);
        r.name = "v";
      }
      r.type = I8;
      r.data = "x";
      recs.push_back(r);
    }
    make_consistent(recs);
  }
  bool huge = false;
  if (chance(1, 150)) { // more entries than a byte can count
    size_t n = 256 + pbt::draw(400);
    huge = chance(1, 40);
    if (huge)
      n = 2000 + pbt::draw(3000);
    pbt::label(huge ? "folder with thousands of entries"
                    : "folder with more than 255 entries");
    bool folders = chance(1, 3), top = chance(1, 4);
    vector<Rec> more;
    for (size_t i = 0; i < n; i++) {
      Rec r;
      string name = pbt::fmt("e%06zu", i);
      if (!top)
        r.folder.push_back("huge");
      if (folders || top)
        r.folder.push_back(name);
      r.name = folders || top ? "v" : name;
      r.type = I8;
      r.data = string(1, (char)(i % 251));
      more.push_back(r);
    }
    if (huge)
      recs = more;
    else
      recs.insert(recs.end(), more.begin(), more.end());
  }
  if (!huge)
    reorder(recs);
  File f = serialise(recs, !huge);
  Node root;
  apply(&root, f);
  string path = pbt::dir() + "/binout0000";
  pbt::write_file(path, f.bytes);
  pbt::sample(describe(f.recs));
  vector<Path> vars, folders;
  Path at;
  all_paths(&root, at, vars, folders);
  if (huge) { // querying some of them is enough
    pbt::shuffle(vars);
    vars.resize(std::min<size_t>(vars.size(), 300));
    Path big = {"huge"};
    if (!lookup(&root, big))
      big.clear();
    folders.resize(std::min<size_t>(folders.size(), 300));
    folders.push_back(big);
  }
  if (f.recs.empty())
    pbt::discard();
  folders.push_back({});
  ba::Handle h(path);
  bool big = false;
  for (auto &p : folders) {
    const Node *n = lookup(&root, p);
    string q = p.empty() ? "/" : spell(p);
    auto c = ba::children(h.p(), q);
    REQUIRE(!c.null && c.n == n->ch.size(), "folder %s: %zu entries, %zu expected",
            q.c_str(), c.n, n->ch.size());
    size_t i = 0, nd = 0, nfiles = 0;
    for (auto &x : n->ch) {
      REQUIRE(c.names[i] == x.first, "entry %zu of %s is \"%s\", expected \"%s\"",
              i, q.c_str(), c.names[i].c_str(), x.first.c_str());
      i++;
      nd += is_d(x.first) && x.second->folder;
      nfiles += !x.second->folder;
    }
    big |= n->ch.size() >= 5 || nd > 1;
    size_t steps = binout_get_num_timesteps(h.p(), q.c_str());
    if (nfiles == 0) {
      REQUIRE(steps == nd, "%s: %zu time steps, expected %zu", q.c_str(), steps,
              nd);
      pbt::label_if(nd > 0, "step count > 0");
    } else if (nfiles == n->ch.size())
      REQUIRE(steps == (size_t)~0, "%s holds variables: step count %zu",
              q.c_str(), steps);
    else {
      REQUIRE(steps == nd || steps == (size_t)~0,
              "%s holds variables and %zu time step folders: step count %zu", q.c_str(), nd, steps);
      pbt::label_if(nd > 0, "step count of a mixed folder");
    }
    REQUIRE(!binout_variable_exists(h.p(), q.c_str()),
            "folder %s exists as a variable", q.c_str());
    int t = binout_get_type_id(h.p(), q.c_str());
    REQUIRE(t == 255 && h.f.error_string,
            "folder %s has type %d", q.c_str(), t);
  }
  if (folders.size() >= 3 && big)
    pbt::nontrivial();
  for (auto &p : vars) {
    const Node *n = lookup(&root, p);
    string q = spell(p);
    REQUIRE(binout_variable_exists(h.p(), q.c_str()), "%s does not exist",
            q.c_str());
    int t = binout_get_type_id(h.p(), q.c_str());
    REQUIRE(t == n->type && !h.f.error_string, "%s: type %d, recorded %d",
            q.c_str(), t, n->type);
    auto c = ba::children(h.p(), q);
    REQUIRE(c.null && c.n == (size_t)~0, "variable %s has children",
            q.c_str());
    REQUIRE(binout_get_num_timesteps(h.p(), q.c_str()) == (size_t)~0,
            "variable %s has time steps", q.c_str());
  }
  for (int k = 0; k < 6; k++) {
    Path p = vars.empty() || chance(1, 4) ? Path{gen_name()}
                                          : vars[pbt::draw(vars.size())];
    switch (pbt::draw(4)) {
    case 0:
      p.back() += gen_name();
      break;
    case 1:
      p[pbt::draw(p.size())].pop_back();
      break;
    case 2:
      p.push_back(gen_name());
      break;
    default:
      p.erase(p.begin() + pbt::draw(p.size()));
    }
    bool bad = p.empty();
    for (auto &c : p)
      bad |= c.empty();
    if (bad || lookup(&root, p))
      continue;
    string q = spell(p);
    REQUIRE(!binout_variable_exists(h.p(), q.c_str()), "absent %s exists",
            q.c_str());
    int t = binout_get_type_id(h.p(), q.c_str());
    REQUIRE(t == 255 && h.f.error_string,
            "absent %s has type %d", q.c_str(), t);
    auto c = ba::children(h.p(), q);
    REQUIRE(c.null && c.n == (size_t)~0, "absent %s has %zu children",
            q.c_str(), c.n);
    REQUIRE(binout_get_num_timesteps(h.p(), q.c_str()) == (size_t)~0,
            "absent %s has time steps", q.c_str());
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(B04, 60000, 1200000,
         "random trees with metadata and step folders; every variable's simple "
         "path, real path and perturbed paths; non-trivial: a path resolved "
         "through metadata and one resolved through a time step") {
  TreeOpts o;
  auto recs = gen_recs(o);
  if (chance(1, 3)) {
    Path p = {gen_name()};
    if (p[0] != "metadata")
      gen_timed(recs, p, o);
    make_consistent(recs);
  }
  reorder(recs);
  File f = serialise(recs, false);
  Node root;
  apply(&root, f);
  string path = pbt::dir() + "/binout0000";
  pbt::write_file(path, f.bytes);
  pbt::sample(describe(f.recs));
  vector<Path> vars, folders;
  Path at;
  all_paths(&root, at, vars, folders);
  ba::Handle h(path);
  bool meta = false, timed = false;
  for (size_t k = 0; k < vars.size() + 4; k++) {
    Path q;
    if (k < vars.size()) {
      q = chance(1, 4) ? vars[k] : strip(vars[k]);
      if (chance(1, 8) && !q.empty())
        q.insert(q.begin() + 1 + pbt::draw(q.size()), gen_name());
      else if (chance(1, 8) && q.size() > 1)
        q.pop_back();
    } else
      q = {gen_name(), gen_name()};
    if (q.empty())
      continue;
    Resolved e = resolve_simple(&root, q);
    string s = join(q);
    if (chance(1, 3))
      s = s.substr(1);
    if (s[0] == '/' && chance(1, 10))
      s = "/" + s;
    auto r = ba::simple(h.p(), s);
    if (!e.found) {
      REQUIRE(!r.ok, "simple path %s matches nothing but resolved to %s",
              s.c_str(), r.path.c_str());
      pbt::label("simple path that matches nothing");
      continue;
    }
    REQUIRE(r.ok, "simple path %s did not resolve, expected %s", s.c_str(),
            join(e.path).c_str());
    REQUIRE(r.path == join(e.path), "simple path %s resolved to %s, expected %s",
            s.c_str(), r.path.c_str(), join(e.path).c_str());
    if (e.node->folder) {
      pbt::label("simple path of a folder");
      continue;
    }
    REQUIRE(r.type == e.node->type, "simple path %s: type %d, recorded %d",
            s.c_str(), r.type, e.node->type);
    REQUIRE(r.timed == e.timed, "simple path %s: timed %d, expected %d",
            s.c_str(), r.timed, e.timed);
    if (!e.timed) {
      auto d = ba::read(h.p(), r.path, r.type);
      REQUIRE(d.ok == !e.node->data.empty(), "%s cannot be read: %s",
              r.path.c_str(), d.error.c_str());
      REQUIRE(d.data == e.node->data, "%s: other data", r.path.c_str());
      bool m = std::find(e.path.begin(), e.path.end(), "metadata") !=
                   e.path.end() &&
               std::find(q.begin(), q.end(), "metadata") == q.end();
      meta |= m;
      pbt::label(m ? "resolved through metadata" : "resolved directly");
    } else {
      timed = true;
      pbt::label("resolved through a time step");
      Timed t = read_timed(&root, e.path);
      auto d = ba::read_timed(h.p(), r.path, r.type);
      REQUIRE(d.ok == t.ok, "%s: timed read ok=%d expected %d: %s",
              r.path.c_str(), d.ok, t.ok, d.error.c_str());
      REQUIRE(!t.ok || d.data == t.data, "%s: other timed data", r.path.c_str());
    }
  }
  if (meta && timed)
    pbt::nontrivial();
  auto r = ba::simple(h.p(), "/");
  REQUIRE(r.ok && r.path == "/", "the root path does not resolve to itself");
}

// ---------------------------------------------------------------------------------
// a record that no reader can accept at the end of a file (and maybe others after it)
static bool bad_record(const File &f, int kind, string &b) {
  string o;
  auto components = [](size_t n) {
    string p;
    while (p.size() < n) {
      p += string(1 + pbt::draw(400), (char)('a' + pbt::draw(26)));
      p += "/";
    }
    p.resize(n);
    if (p.back() == '/')
      p.back() = 'x';
    return p;
  };
  const Widths &w = f.w;
  switch (kind) {
  case 0: // the longest path has 1023 characters
    if (!record(o, w, 2, "/" + components(1023 + pbt::sized(3000))))
      return false;
    break;
  case 1:
    if (!record(o, w, 2, "/") || !record(o, w, 2, components(1023)))
      return false;
    break;
  case 2:
    if (!record(o, w, 2, "/") ||
        !record(o, w, 3, data_body(w, I32, gen_name(), "1234")))
      return false;
    break;
  case 3: {
    if (f.recs.empty())
      return false;
    auto &r = f.recs[pbt::draw(f.recs.size())];
    string p = join(r.folder) + "/" + r.name;
    if (chance(1, 2))
      p += "/" + gen_name();
    if (p.size() > 1000 || !record(o, w, 2, p))
      return false;
    break;
  }
  case 4: {
    uint64_t len = w.len + w.cmd;
    string body(pbt::draw(20), 'b');
    len = chance(1, 2) ? pbt::draw(len) : len + body.size() + 1 + pbt::draw(300);
    if (w.len < 8 && len >> (8 * w.len))
      return false;
    put(o, len, w.len);
    put(o, 2 + pbt::draw(6), w.cmd);
    b += o + body;
    return true;
  }
  default: {
    string body;
    put(body, I8, w.typ);
    size_t n = 1 + pbt::draw(255);
    body += (char)(unsigned char)n;
    body += string(pbt::draw(n), 'n');
    if (f.recs.empty() || !record(o, w, 2, join(f.recs[0].folder)) ||
        !record(o, w, 3, body))
      return false;
  }
  }
  b += o;
  for (size_t n = pbt::draw(3); n; n--)
    record(b, w, 4, string(pbt::draw(10), 'j'));
  return true;
}
PROPERTY(B05, 12000, 300000,
         "1 to 300 files matching a pattern, variables split over them and "
         "recorded in several, a random subset of files broken (missing, "
         "directory, empty, short or bad header, cut inside a record, a record "
         "that can not be accepted); "
         "non-trivial: at least 2 good files and (a broken file or a variable "
         "recorded in two files)") {
  TreeOpts o;
  o.max_values = 4;
  o.max_steps = 4;
  size_t nf = chance(1, 25) ? 250 + pbt::draw(30) : 1 + pbt::sized(7);
  auto recs = gen_recs(o);
  if (nf > 100) // something for every file
    for (size_t i = 0; i < nf; i++) {
      Rec r;
      r.folder = {"each"};
      r.name = pbt::fmt("v%zu", i);
      r.type = gen_type();
      r.data = gen_data(r.type, 1);
      recs.push_back(r);
    }
  make_consistent(recs);
  vector<vector<Rec>> parts(nf);
  size_t i = 0;
  bool shared = false;
  for (auto &r : recs) {
    size_t k = nf > 100 ? i++ % nf : pbt::draw(nf);
    parts[k].push_back(r);
    if (chance(1, 6)) {
      Rec c = r;
      c.data = gen_data(r.type, r.data.size() / tsize(r.type));
      size_t k2 = pbt::draw(nf);
      parts[k2].push_back(c);
      shared |= k2 != k;
    }
  }
  // file names; the list of a pattern is sorted by byte
  std::set<string> used;
  while (used.size() < nf)
    used.insert(pbt::fmt("%04u%s", (unsigned)(used.size() * 7 + pbt::draw(7)),
                         chance(1, 4) ? "B" : ""));
  vector<string> names(used.begin(), used.end());
  string d = pbt::dir();
  // where the files lie and how the pattern spells it
  size_t spelled = pbt::weighted({8, 2, 2, 2, 2});
  if (spelled == 4) {
    d += "/run7";
    mkdir(d.c_str(), 0700);
  }
  Node good, bad;
  std::map<string, std::set<string>> bad_data; // path -> recorded bytes
  vector<string> failing;
  size_t ngood = 0;
  string desc;
  // write in a random order (directory order must not matter)
  for (i = 0; i < nf; i++) {
    File f = serialise(parts[i], chance(1, 3));
    string name = d + "/binout" + names[i];
    bool broken = nf < 100 ? chance(1, 4) : chance(1, 60);
    if (!broken) {
      pbt::write_file(name, f.bytes);
      apply(&good, f);
      ngood++;
      desc += pbt::fmt("[%s: %zu recordings] ", names[i].c_str(), f.recs.size());
      continue;
    }
    string b = f.bytes;
    int kind = (int)pbt::draw(15);
    static const char *kn[] = {"cut inside a record", "empty file",
                               "short header", "big endian", "bad widths",
                               "bad float format", "directory",
                               "dangling link", "not a binout",
                               "CD too long", "relative CD too long",
                               "variable inside of /", "CD into a variable",
                               "record length", "variable name length"};
    if (kind > 8 && !bad_record(f, kind - 9, b))
      kind = 8;
    if (kind == 0) {
      std::set<size_t> bounds = {8};
      for (auto &m : f.marks)
        bounds.insert(m.at + m.len);
      size_t cut = 8;
      for (int t = 0; t < 6 && bounds.count(cut); t++)
        cut = 8 + pbt::draw(b.size() - 8 + 1);
      if (bounds.count(cut))
        b.resize(8), kind = 1, b.clear();
      else
        b.resize(cut);
    } else if (kind == 1)
      b.clear();
    else if (kind == 2)
      b.resize(pbt::draw(8));
    else if (kind == 3)
      b[5] = 0;
    else if (kind == 4)
      b[(const int[]){1, 3, 4}[pbt::draw(3)]] = (char)(9 + pbt::draw(200));
    else if (kind == 5)
      b[6] = (char)(1 + pbt::draw(4));
    else if (kind == 8)
      b = "*KEYWORD\n*NODE\n$ not a binout file at all\n";
    pbt::label(kn[kind]);
    if (kind == 6)
      mkdir(name.c_str(), 0700);
    else if (kind == 7)
      (void)!symlink((d + "/no such file").c_str(), name.c_str());
    else
      pbt::write_file(name, b);
    failing.push_back(name);
    desc += pbt::fmt("[%s: %s] ", names[i].c_str(), kn[kind]);
    if (kind == 0 || kind > 8) {
      apply(&bad, f);
      for (auto &r : f.recs)
        bad_data[join(r.folder) + "/" + r.name].insert(
            string(1, (char)r.type) + r.data);
    }
  }
  pbt::write_file(d + "/other", string("not matched"));
  if (chance(1, 3)) {
    // binouts that no pattern matches
    Rec r;
    r.folder = {"not", "matched"};
    r.name = "x";
    r.type = I32;
    r.data = string(4, '1');
    File f = serialise({r}, false);
    for (const char *n : {"/.binout0000", "/abinoux0000", "/binou", "/BInout0000"})
      pbt::write_file(d + n, f.bytes);
    if (spelled == 4) {
      mkdir((pbt::dir() + "/run10").c_str(), 0700);
      pbt::write_file(pbt::dir() + "/run10/binout0000", f.bytes);
    }
    pbt::label("files that are not matched");
  }
  pbt::sample(desc + describe(recs, 6));
  if (ngood >= 2 && (!failing.empty() || shared))
    pbt::nontrivial();
  pbt::label_if(nf > 256, "more than 256 files");
  static const char *const PATTERNS[] = {"binout*", "binout?*", "binout????*", "binout[0-9]*",
                                         "*inout[0-9][0-9]*", "?inout*", "[a-d]inout*", "[!BA]inout*"};
  string pattern = PATTERNS[pbt::weighted({8, 1, 1, 1, 1, 1, 1, 1})], shown = d + "/";
  struct Cwd {
    char old[4096];
    Cwd() {
      if (!getcwd(old, sizeof old))
        old[0] = 0;
    }
    ~Cwd() {
      if (chdir(old)) {
      }
      unsetenv("HOME");
    }
  } back;
  switch (spelled) {
  case 0:
    pattern = d + "/" + pattern;
    break;
  case 1:
    pbt::label("pattern relative to the working directory");
    REQUIRE(chdir(d.c_str()) == 0, "chdir");
    shown = chance(1, 2) ? "" : "./";
    pattern = shown + pattern;
    break;
  case 2:
    pbt::label("pattern relative to the home directory");
    setenv("HOME", d.c_str(), 1);
    pattern = "~/" + pattern;
    break;
  case 3:
    pattern = d + "/../" + d.substr(d.rfind('/') + 1) + "//" + pattern;
    shown = d + "/../" + d.substr(d.rfind('/') + 1) + "//";
    break;
  case 4:
    pbt::label("wildcard in a folder of the pattern");
    pattern = pbt::dir() + (chance(1, 2) ? "/run?/" : "/*[6-9]/") + pattern;
    break;
  }
  for (auto &f : failing)
    f = shown + f.substr(d.size() + 1);
  ba::Handle h(pattern);
  if (chdir(back.old)) {
  }
  bool null;
  string e = h.open_error(&null);
  if (failing.empty())
    REQUIRE(null, "no file is broken but opening reports: %s", e.c_str());
  else {
    REQUIRE(!null, "%zu files are broken but no error is reported",
            failing.size());
    for (auto &n : failing) {
      size_t at = e.find(n);
      REQUIRE(at != string::npos, "broken file %s is not named in: %s",
              n.c_str(), e.c_str());
      size_t end = e.find('\n', at);
      string line = e.substr(at, end == string::npos ? end : end - at);
      REQUIRE(line.size() > n.size() + 2, "no reason is given for %s: %s",
              n.c_str(), line.c_str());
    }
    size_t lines = 1 + std::count(e.begin(), e.end(), '\n');
    REQUIRE(lines == failing.size(), "%zu errors for %zu broken files: %s",
            lines, failing.size(), e.c_str());
  }
  vector<Path> vars, folders;
  Path at;
  all_paths(&good, at, vars, folders);
  folders.push_back({});
  for (auto &v : vars) {
    const Node *n = lookup(&good, v);
    string p = join(v);
    auto it = bad_data.find(p);
    auto r = ba::read(h.p(), p, n->type);
    if (it == bad_data.end()) {
      if (n->data.empty()) {
        REQUIRE(!r.ok, "%s is empty", p.c_str());
        continue;
      }
      REQUIRE(r.ok, "%s is recorded in a good file but: %s", p.c_str(),
              r.error.c_str());
      REQUIRE(r.data == n->data, "%s: returned %s, recorded %s", p.c_str(),
              pbt::hexdump(r.data.data(), r.data.size()).c_str(),
              pbt::hexdump(n->data.data(), n->data.size()).c_str());
    } else if (r.ok)
      REQUIRE(r.data == n->data || it->second.count(string(1, (char)n->type) + r.data),
              "%s: returned data that no file records", p.c_str());
  }
  // variables that only a broken file records: their data or an error
  for (auto &b : bad_data)
    for (int t = 1; t <= 10; t++) {
      auto r = ba::read(h.p(), b.first, t);
      REQUIRE(r.ok || r.has_error, "%s: neither data nor error",
              b.first.c_str());
      if (r.ok) {
        bool known = b.second.count(string(1, (char)t) + r.data) > 0;
        Path pp;
        size_t s = 1;
        while (s <= b.first.size()) {
          size_t k = b.first.find('/', s);
          if (k == string::npos)
            k = b.first.size();
          pp.push_back(b.first.substr(s, k - s));
          s = k + 1;
        }
        const Node *n = lookup(&good, pp);
        if (n && !n->folder && n->type == t && n->data == r.data)
          known = true;
        REQUIRE(known, "%s: returned data that no file records",
                b.first.c_str());
      }
    }
  if (!vars.empty())
    for (auto &p : folders) {
      const Node *n = lookup(&good, p);
      auto c = ba::children(h.p(), join(p));
      std::set<string> got(c.names.begin(), c.names.end());
      REQUIRE(got.size() == c.names.size(), "%s lists an entry twice",
              join(p).c_str());
      for (auto &x : n->ch)
        REQUIRE(got.count(x.first), "%s does not list %s", join(p).c_str(),
                x.first.c_str());
      const Node *m = lookup(&bad, p);
      for (auto &x : got)
        REQUIRE(n->sub(x) || (m && m->sub(x)), "%s lists %s", join(p).c_str(),
                x.c_str());
    }
  // a pattern without a match
  {
    string pat = d + "/nothing*";
    ba::Handle g(pat);
    string err = g.open_error(&null);
    REQUIRE(!null && err.find(pat) != string::npos,
            "no error for a pattern that matches nothing: %s", err.c_str());
    auto r = ba::read(g.p(), "/a/b", I32);
    REQUIRE(!r.ok && r.has_error, "read from nothing");
  }
}

// ---------------------------------------------------------------------------------
static bool in_file(const string &contents, const string &chunk) {
  return chunk.empty() || contents.find(chunk) != string::npos;
}
static void touch_all(const Scene &s, binout_file *f) {
  vector<string> paths;
  walk(f, "/", 0, paths);
  for (auto &v : s.vars)
    if (paths.size() < 500)
      paths.push_back(join(v));
  for (auto &p : paths) {
    int t = binout_get_type_id(f, p.c_str());
    binout_variable_exists(f, p.c_str());
    binout_get_num_timesteps(f, p.c_str());
    ba::simple(f, p);
    int other = gen_type();
    for (int type : {t, other}) {
      if (type < 1 || type > 10)
        continue;
      auto r = ba::read(f, p, type);
      REQUIRE(r.ok != r.has_error, "%s: ok=%d error=%d", p.c_str(), r.ok,
              r.has_error);
      if (r.ok) {
        pbt::label("variable readable");
        REQUIRE(in_file(s.contents, r.data),
                "%s: returned data that is not in the file", p.c_str());
      } else
        pbt::label("read reports an error");
    }
  }
  std::set<string> timed;
  for (auto &p : paths) {
    Path q;
    size_t st = 1;
    while (st <= p.size()) {
      size_t k = p.find('/', st);
      if (k == string::npos)
        k = p.size();
      q.push_back(p.substr(st, k - st));
      st = k + 1;
    }
    q = strip(q);
    if (q.empty() || !timed.insert(join(q)).second)
      continue;
    string sp = join(q);
    auto r = ba::simple(f, sp);
    for (int type : {r.type, gen_type()}) {
      if (type < 1 || type > 10)
        continue;
      auto t = ba::read_timed(f, sp, type);
      REQUIRE(t.ok != t.has_error, "timed %s: ok=%d error=%d", sp.c_str(), t.ok,
              t.has_error);
      if (t.ok) {
        pbt::label("timed variable readable");
        size_t chunk = t.n * tsize(type);
        for (size_t i = 0; i < t.steps; i++)
          REQUIRE(in_file(s.contents, t.data.substr(i * chunk, chunk)),
                  "timed %s: step %zu is not in the file", sp.c_str(), i);
      }
    }
  }
}
static void b06_truncated() {
  pbt::label("cut, otherwise intact");
  TreeOpts o;
  auto recs = gen_recs(o);
  reorder(recs);
  File f = serialise(recs);
  Node root;
  apply(&root, f);
  string b = f.bytes;
  b.resize(pbt::draw(b.size()));
  string path = pbt::dir() + "/binout0000";
  pbt::write_file(path, b);
  pbt::sample(pbt::fmt("cut to %zu of %zu bytes: ", b.size(), f.bytes.size()) +
              describe(f.recs));
  ba::Handle h(path);
  vector<Path> vars, folders;
  Path at;
  all_paths(&root, at, vars, folders);
  std::map<string, std::set<string>> all;
  for (auto &r : f.recs)
    all[join(r.folder) + "/" + r.name].insert(string(1, (char)r.type) + r.data);
  for (auto &v : vars)
    for (int t = 1; t <= 10; t++) {
      auto r = ba::read(h.p(), join(v), t);
      REQUIRE(r.ok != r.has_error, "%s: ok=%d error=%d", join(v).c_str(), r.ok,
              r.has_error);
      if (r.ok) {
        pbt::nontrivial();
        REQUIRE(all[join(v)].count(string(1, (char)t) + r.data),
                "%s: data that was not recorded", join(v).c_str());
      }
    }
}

PROPERTY(B06, 90000, 2500000,
         "valid files (1 to 4 per pattern) with structured damage: field "
         "values, record lengths and commands, long/empty/climbing paths, "
         "truncation, insertion, deletion, splices, plain noise; then every "
         "listed path is queried and read; non-trivial: the damaged set still "
         "lists at least one variable") {
  if (chance(1, 5))
    return b06_truncated();
  Scene s = gen_scene(SOME, pbt::dir());
  pbt::sample(pbt::fmt("%zu files, %zu bytes, damaged=%d: ", s.files.size(),
                       s.contents.size(), s.damaged) +
              describe(s.files[0].recs, 4) + " bytes " +
              pbt::hexdump(s.contents.data(), std::min<size_t>(s.contents.size(), 200)));
  ba::Handle h(s.pattern);
  string e = h.open_error();
  pbt::label(e.empty() ? "opened without error" : "open reports an error");
  auto c = ba::children(h.p(), "/");
  if (s.damaged && c.names.size() > 0)
    pbt::nontrivial();
  touch_all(s, h.p());
}
// ---------------------------------------------------------------------------------
PROPERTY(B07, 16000, 400000,
         "random scenes (1 to 4 files, a quarter damaged) and sequences of 3 to "
         "60 calls on one handle with close/reopen, each compared with the same "
         "call made first on a fresh handle; non-trivial: at least 8 calls, one "
         "failing and one succeeding") {
  Scene s = gen_scene(chance(1, 4) ? SOME : NONE, pbt::dir());
  size_t n = 3 + pbt::sized(57);
  ba::Handle *h = new ba::Handle(s.pattern);
  std::unique_ptr<ba::Handle> own(h);
  string first = scrub(h->open_error(), s.dirname);
  size_t failing = 0, working = 0;
  std::map<string, string> memo;
  string desc = describe(s.files[0].recs, 4) + " calls: ";
  for (size_t i = 0; i < n; i++) {
    if (chance(1, 25)) {
      if (chance(1, 2)) {
        // nothing is left in a closed handle
        binout_close(h->p());
        ba::Handle none(pbt::dir() + "/no/such/file");
        for (size_t k = 1 + pbt::draw(8); k; k--) {
          Op o = gen_op(s);
          string got = do_op(h->p(), o), want = do_op(none.p(), o);
          REQUIRE(got == want, "closed handle: %s returns\n  %.600s\ninstead of\n  %.600s",
                  show_op(o).c_str(), got.c_str(), want.c_str());
        }
        pbt::label("calls after closing");
      }
      own.reset(); // (closes again)
      own.reset(new ba::Handle(s.pattern));
      h = own.get();
      string again = scrub(h->open_error(), s.dirname);
      REQUIRE(again == first, "reopening reports \"%s\" instead of \"%s\"",
              again.c_str(), first.c_str());
      pbt::label("reopened");
    }
    Op o = gen_op(s);
    string key = show_op(o);
    if (i < 8)
      desc += key + "; ";
    string got = do_op(h->p(), o);
    bool has = h->f.error_string != nullptr;
    if (o.kind <= 2) {
      // (a damaged record may hold the type 255 as well)
      bool failed = o.kind == 2 ? !binout_variable_exists(h->p(), o.path.c_str())
                                : got.compare(0, 6, "failed") == 0;
      REQUIRE(failed == has, "call %zu %s: failed=%d but error string %s", i,
              key.c_str(), failed, has ? h->f.error_string : "not set");
      (failed ? failing : working)++;
    }
    if (!memo.count(key)) {
      ba::Handle fresh(s.pattern);
      memo[key] = do_op(fresh.p(), o);
    }
    REQUIRE(got == memo[key], "call %zu %s returns\n  %.600s\nas first call\n  %.600s",
            i, key.c_str(), got.c_str(), memo[key].c_str());
  }
  pbt::sample(desc);
  if (n >= 8 && failing && working)
    pbt::nontrivial();
}

// C21 commands either take effect or change nothing
#include "ddl.h"
#include <inttypes.h>
#include <string.h>
#include <algorithm>
#include <unordered_set>

// base database: every kind of object and every kind of partition
static void build(Db& db) {
  for (const char* c : {"create cloud c1 (type 'mock')", "create cloud c2 (type 'mock', url 'u', login 'l', password 'p')", "create storage s1 (cloud 'c1', cloud_drop_local false, compression 'none')",
       "create storage s2 (path 'p2', crc true, encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')", "create storage s3 (compression 'lz4')",
       "create cloud r1 (type 's3', url 'http://s3', login 'login', password 'secret')", "create cloud r2 (type 's3', url 'http://down', login 'login', password 'secret')", "create cloud r3 (type 's3', url 'http://s3', login 'login', password 'secret', debug true)", "create storage s5 (cloud 'r1')"}) db.must(c);
  for (int p = 0; p < 6; p++) db.must_write({put(p * 10 + 1, strf("a%d", p)), put(p * 10 + 7, strf("b%d", p), "k")});
  for (int i = 0; i < 20; i++) db.must("service");
  // 0: file; 10: memory and file; 20: local and cloud; 30: cloud only; 40: file on s2; 50: memory only
  db.must("move partition 20 into s1"); db.must("move partition 30 into s1"); db.must("drop partition 30 on storage"); db.must("move partition 40 into s2");
  db.must_write({put(12, "m")}); db.must("alter pipeline set main (partitions 50), s1 (size 1gb), s2");
}
struct Base { fs::Image img; DState st; Model ev; };
static std::vector<std::string> pre() { return {"set interval to 10"}; }
static void events_of(DState& s, Model all, Db& db) {
  // which events are stored and which are in memory only
  for (auto& p : s.parts) for (auto& e : all) if (e.first.first >= p.second.min && e.first.first <= p.second.max) {
    bool mem = p.second.min == 50 || e.second == "m"; (mem ? p.second.mem : p.second.stored)[e.first] = e.second; }
}
static const Base& base() {
  static Base b; static bool done = false; if (done) return b; done = true;
  fs::reset(); fs::clock_frozen = true; sched::reset_objects(); Db db; db.pre = pre(); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  build(db); std::vector<std::pair<Key, std::string>> got; db.scan(&got); b.ev = to_model(got); if (b.ev.size() != 13) fail("harness", "%zu events", b.ev.size());
  db.close(); b.img = fs::snapshot(); if (!db.open()) fail("open failed", "%s", db.err.c_str()); b.st = read_state(db); events_of(b.st, b.ev, db); db.close();
  return b;
}
// everything visible, as text
static std::string finger(Db& db) {
  std::string r = db.must("show all, clouds, storages, pipeline, partitions debug, test_bool, test_int, test_string, error_wal, error_upload, error_download, error_refresh_1, error_refresh_2, error_refresh_3");
  std::vector<std::pair<Key, std::string>> got; if (!db.scan(&got)) r += "scan: " + db.err; for (auto& g : got) r += show_key(g.first) + "=" + g.second + ";";
  return r + fs::read_file(db.path + "/config.json");
}
// every storage bound to an S3 cloud has its bucket; unless something was interrupted, there are no others
static void buckets(const DState& s, bool exact, const char* when) {
  std::set<std::string> want, have; for (auto& x : s.storages) { auto c = s.clouds.find(x.second.cloud); if (c != s.clouds.end() && c->second.type == "s3") want.insert(x.second.uuid); }
  std::string d = std::string(fs::ROOT) + "/s3/"; for (auto& f : fs::listing()) if (f.first.compare(0, d.size(), d) == 0) { std::string b = f.first.substr(d.size()); have.insert(b.substr(0, b.find('/'))); }
  for (auto& w : want) if (!have.count(w)) fail("a storage has no bucket on the server", "%s %s", w.c_str(), when);
  if (exact) for (auto& h : have) if (!want.count(h)) fail("a bucket is left on the server", "%s %s", h.c_str(), when);
}
struct Run {
  Db db; DState st; std::string fp; bool open = false, dirty = true, exact = true, exact0 = true; Ctx& c;
  Run(Ctx& c) : c(c) { db.pre = pre(); }
  void fresh() {
    if (open) db.close(); const Base& b = base(); fs::restore(b.img); sched::reset_objects(); fs::clock_frozen = true; if (!db.open()) fail("open failed", "%s", db.err.c_str()); open = true; st = b.st; dirty = false; exact = exact0; fp = finger(db);
    st.vars["ssn"] = read_state(db, false).vars["ssn"];
  }
  void events(const std::string& sig) { if (readable(st)) check_scan(db, st.events(), sig); }
  void compare(const std::string& sig, bool ps) { DState g = read_state(db, ps); adopt(st, g); std::string d = state_diff(st, g, ps); if (!d.empty()) fail(sig, "%s", d.c_str()); }
  // after commands which ran background work: placement is taken over, everything else must match
  void resync(const std::string& sig) {
    DState g = read_state(db, true); std::map<uint64_t, RPart> old = st.parts; Model all = st.events(); st.parts = g.parts;
    for (auto& p : st.parts) { auto o = old.find(p.first); for (auto& e : all) if (e.first.first >= p.second.min && e.first.first <= p.second.max) { bool mem = o != old.end() && o->second.mem.count(e.first); (mem ? p.second.mem : p.second.stored)[e.first] = e.second; } }
    compare(sig, true);
  }
  // true if accepted and something changed
  bool cmd(const std::string& t) {
    std::string before = st.show(true, true); Model evb = st.events(); DState old = st; RExec r = ref_exec(st, t); c.note("%s", t.size() > 300 ? (t.substr(0, 300) + "...").c_str() : t.c_str());
    bool ok; { Elsewhere other; ok = db.exec(t); }
    if (r.res == R_OK && !ok) fail("valid command rejected", "%s: %s", quote(t).c_str(), db.err.c_str());
    if (r.res == R_ERR && ok) fail("invalid command accepted", "%s: expected an error (%s)", quote(t).c_str(), r.why.c_str());
    if (ok && r.maint) { resync("effect of a maintenance command"); events("events after a maintenance command"); fp = finger(db); return true; }
    if (!ok && r.maint) { compare("partial effect of a failed range command", true); events("events after a failed range command"); fp = finger(db); return true; }
    if (!ok && t.find("cloud") != std::string::npos) exact = false;   // the server can keep an unused bucket
    if (r.res == R_ERR || (r.res == R_ANY && !ok)) { std::string f = finger(db); if (f != fp) { compare("rejected command changed the state", true); fail("rejected command changed the state", "%s", quote(t).c_str()); } return false; }
    bool same = before == st.show(true, true) && evb == st.events();
    if (same && st.events() == old.events()) { compare("command without effect changed the state", true); events("events after a command without effect"); fp = finger(db); bool mem = false; for (auto& p : st.parts) if (!p.second.mem.empty() != !old.parts[p.first].mem.empty()) mem = true; return mem; }
    compare("effect of a command", true); events("events after a command"); fp = finger(db); return true;
  }
  void reopen() {
    buckets(st, exact, "after commands"); db.close(); check_no_handles("after commands"); if (!db.open()) fail("database cannot be opened after commands", "%s", db.err.c_str());
    for (auto& v : st.vars) if (!v.second.saved && v.first != "directory") { v.second = base().st.vars.at(v.first); }
    DState g = read_state(db, true); st.vars["ssn"] = g.vars["ssn"]; adopt(st, g);
    std::string d = state_diff(st, g, false); if (!d.empty()) fail("state after restart", "%s", d.c_str());
    for (auto& p : st.parts) if (p.second.local || p.second.cloud) { auto i = g.parts.find(p.first); if (i == g.parts.end()) { if (p.second.stored.empty()) continue; fail("partition missing after restart", "%" PRIu64, p.first); } if (i->second.storage != p.second.storage || i->second.local != p.second.local || i->second.cloud != p.second.cloud) fail("partition placement after restart", "%" PRIu64 ": expected %s %d %d, got %s %d %d", p.first, p.second.storage.c_str(), p.second.local, p.second.cloud, i->second.storage.c_str(), i->second.local, i->second.cloud); }
    if (!st.ghost.empty() && readable(st)) { std::vector<std::pair<Key, std::string>> got; if (!db.scan(&got)) fail("scan after restart", "%s", db.err.c_str()); Model all = st.events();
      for (auto& g : got) { auto h = st.ghost.find(g.first); if (h != st.ghost.end() && h->second == g.second && !all.count(g.first)) for (auto& p : st.parts) if (g.first.first >= p.second.min && g.first.first <= p.second.max) p.second.mem[g.first] = g.second; } }
    events("events after restart");
  }
};
static const std::vector<std::string>& templates() {
  static std::vector<std::string> v = {
    "", "# nothing", "checkpoint", "service", "rebalance", "debug 'wal_create'", "debug 'wal_gc'", "debug 'wal_read'", "debug 'memory_gc'", "debug 'nope'",
    "show memory", "show wal", "show clouds", "show cloud c1", "show storages", "show storage s1", "show partition 0", "show partitions", "show partitions s1 debug", "show pipeline", "show all", "show config interval", "show interval", "show 'interval'", "show memory, wal, clouds, storages debug, partitions, pipeline, config, all workers", "show wal debug, storage s2",
    "set interval to 20", "set interval to 0", "set interval to 2 min", "set interval to 'x'", "set wal_rotate_wm to 5mb", "set compression to 'lz4'", "set compression to 'nope'", "set compression_level to 3", "set test_bool to true", "set test_bool to false", "set test_int to 7", "set test_string to 'a b'", "set test_string to \"q'r\"", "set workers to 5", "set nope to 1", "set uuid to 'x'", "set test_data to 1", "set wal to false", "set ssn to 1000",
    "create cloud c3 (type 'mock')", "create cloud c1 (type 'mock')", "create cloud if not exists c1 (type 's3', url 'zz')", "create cloud c3 (type 's3', url 'zz')", "alter cloud c3 set (password '')", "alter cloud c3 set (url '', debug true)", "create cloud if not exists c3 (type 's3', url 'u', login 'l', password 'p', debug true)", "create cloud c3 (type 'mock', access_key 'k', secret_key 's', debug false)", "create cloud c3", "create cloud c3 ()", "create cloud c3 (type 'bad')", "create cloud c3 (type 'mock', password 'a\"b')",
    "drop cloud c2", "drop cloud c1", "drop cloud nope", "drop cloud if exists nope", "drop cloud if exists c2",
    "alter cloud c2 rename to c9", "alter cloud c1 rename c8", "alter cloud c1 rename to c2", "alter cloud if exists nope rename to c5", "alter cloud nope rename to c5", "alter cloud c2 set (url 'n', login 'x', password 'y', debug true)", "alter cloud c1 set (type 's3')", "alter cloud if exists nope set (url 'x')", "alter cloud nope set (url 'x')", "alter cloud c2 set (access_key 'a', secret_key 'b')",
    "create storage s4", "create storage s4 ()", "create storage if not exists s4 (path 'x', cloud 'c2', cloud_drop_local true, sync false, crc true, refresh_wm 10mb, region_size 64kib, compression 'lz4', compression_level 2, encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')", "create storage s4 (encryption 'aes')", "create storage s4 (uuid '11111111-2222-3333-4444-555555555555')", "create storage s4 (uuid 'bad')", "create storage s4 (cloud 'nope')", "create storage s4 (compression 'bad')", "create storage s4 (encryption 'bad')", "create storage s4 (encryption 'aes', encryption_key 'short')", "create storage s4 (region_size 0)", "create storage s1", "create storage if not exists s1 (crc true)", "create storage main", "create storage s4 (path 'a\"b')",
    "drop storage s3", "drop storage s1", "drop storage s2", "drop storage main", "drop storage nope", "drop storage if exists nope", "drop storage if exists s3", "drop storage if exists main",
    "alter storage s3 rename to s9", "alter storage s2 rename s8", "alter storage main rename to m", "alter storage s1 rename to s2", "alter storage if exists nope rename to s5", "alter storage nope rename to s5", "alter storage s3 set (path 'y', cloud 'c2', sync false, crc true, compression 'zstd', compression_level 1, refresh_wm 5, region_size 7, encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')", "alter storage s3 set (encryption 'aes')", "alter storage s2 set (crc false)", "alter storage s2 set (path 'q')", "alter storage s2 set (encryption 'none')", "alter storage s1 set (cloud 'c2')", "alter storage s1 set (cloud '')", "alter storage s3 set (cloud 'nope')", "alter storage main set (cloud 'c1')", "alter storage s2 set (cloud 'c2', sync false)", "alter storage s1 set (cloud_drop_local true)", "alter storage main set (sync false, compression 'none')", "alter storage if exists nope set (sync false)", "alter storage nope set (sync false)", "alter storage s3 set (uuid '11111111-2222-3333-4444-555555555555')", "alter storage s3 set ()", "alter storage s3 set", "alter storage s3 set (refresh_wm 1, sync)",
    "create storage s4 (cloud 'r1')", "create storage s4 (cloud 'r2')", "drop storage s5", "alter storage s5 set (cloud '')", "alter storage s5 set (cloud 'r2', sync false)", "alter storage s5 set (cloud 'r3', sync false)", "alter storage s5 set (cloud 'r1')", "alter storage s5 set (cloud 'c2')", "alter storage s3 set (cloud 'r1')", "alter storage main set (cloud 'r1')", "alter storage s5 set (uuid '11111111-2222-3333-4444-555555555555')", "alter cloud r1 set (url 'http://down')", "alter cloud r2 set (url 'http://s3')", "alter cloud r1 set (password 'wrong')", "alter cloud r1 rename to r4", "drop cloud r1", "drop cloud r2", "move partition 10 into s5", "move partition 30 into s5", "alter storage s5 rename to s7",
    "alter pipeline reset", "alter pipeline set main", "alter pipeline set s3 (partitions 1, size 2mb, events 3, duration 4 sec), main (events 7), s2", "alter pipeline set main (), s1", "alter pipeline set main, s1", "alter pipeline set main (size 1), main", "alter pipeline set nope", "alter pipeline set main (size 1), s1 (size 2), main (size 3)", "alter pipeline set main (nope 1)",
    "create partition 100", "create partition 100 109", "create partition 55 75", "create partition 0 59", "create partition 30 20", "create partition 0 1000", "create partition 5 5", "create partition 70 70",
    "drop partition 0", "drop partition 15", "drop partition 20 on cloud", "drop partition 20 on storage", "drop partition 30 on storage", "drop partition 30 on cloud", "drop partition 99", "drop partition if exists 99", "drop partition if exists 30", "drop partition 50 on storage", "drop partitions between 0 and 29", "drop partitions between 5 and 35", "drop partitions between 0 and 1000 on cloud", "drop partitions between 20 and 29 on storage", "drop partitions between 30 and 0", "drop partition 99 on cloud", "drop partition if exists 99 on storage",
    "move partition 0 into s2", "move partition 10 into s1", "move partition 20 into s2", "move partition 30 into s3", "move partition 30 into s1", "move partition 40 into main", "move partition 50 into s1", "move partition 50 into main", "move partition 99 into s1", "move partition if exists 99 into s1", "move partition 0 into nope", "move partition 30 into nope", "move partition 0 into main", "move partitions between 0 and 100 into s3", "move partitions between 0 and 29 into s1", "move partitions between 20 and 39 into nope",
    "refresh partition 10", "refresh partition 30", "refresh partition 20", "refresh partition 50", "refresh partition 99", "refresh partition if exists 99", "refresh partitions between 0 and 100", "refresh partitions between 10 and 35",
    "upload partition 20", "upload partition 30", "upload partition 0", "upload partition 0 if cloud", "upload partition 99", "upload partition if exists 99", "upload partitions between 0 and 100", "upload partitions between 0 and 100 if cloud", "upload partition if exists 99 if cloud",
    "download partition 30", "download partition 20", "download partition 0", "download partition 0 if cloud", "download partition 99", "download partition if exists 99", "download partitions between 20 and 39", "download partitions between 0 and 100 if cloud",
  };
  return v;
}
// textual pieces of a command, spaces dropped
static std::vector<std::string> pieces(const std::string& s) {
  std::vector<std::string> v; size_t p = 0;
  while (p < s.size()) {
    if (s[p] == ' ') { p++; continue; }
    size_t b = p; if (s[p] == '\'' || s[p] == '"') { char q = s[p++]; while (p < s.size() && s[p] != q) p++; p++; } else if (isalnum((unsigned char)s[p]) || s[p] == '_') while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) p++; else p++;
    v.push_back(s.substr(b, p - b)); }
  return v;
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) { if (!r.empty()) r += " "; r += x; } return r; }
static const std::vector<std::string>& alphabet() {
  static std::vector<std::string> v = {"0", "20", "99", "18446744073709551615", "18446744073709551616", "1.5", "5e", "min", "kb", "year", "'x'", "''", "\"y\"", "'mock'", "'aes'", "'open", "main", "s1", "s3", "nope", "c1", "(", ")", ",", ";", "#", "-", "true", "false", "set", "to", "show", "all", "config", "create", "drop", "alter", "storage", "partition", "partitions", "cloud", "pipeline", "if", "not", "exists", "rename", "reset", "move", "between", "and", "into", "refresh", "on", "download", "debug", "memory", "wal", "size", "type", "uuid", "path", "cloud_drop_local", "sync", "refresh_wm", "compression", "encryption", "encryption_key", "interval", "\x80", "_", "S1", "MAIN"};
  return v;
}
// every single edit of the pieces of a template
static uint64_t edits(size_t n) { return n + n + (n ? n - 1 : 0) + (2 * n + 1) * alphabet().size(); }
static std::string edit(std::vector<std::string> p, uint64_t k) {
  size_t n = p.size(), a = alphabet().size();
  if (k < n) { p.erase(p.begin() + k); return join(p); } k -= n;
  if (k < n) { p.insert(p.begin() + k, p[k]); return join(p); } k -= n;
  if (n && k < n - 1) { std::swap(p[k], p[k + 1]); return join(p); } if (n) k -= n - 1;
  if (k < n * a) { p[k / a] = alphabet()[k % a]; return join(p); } k -= n * a;
  p.insert(p.begin() + k / a, alphabet()[k % a]); return join(p);
}
// a case is a batch of commands, each from the base state
static void batch(Ctx& c, uint64_t from, uint64_t to, const std::function<std::string(uint64_t)>& text, int reopen_each) {
  Run r(c); int n = 0;
  for (uint64_t k = from; k < to; k++) {
    if (r.dirty) r.fresh(); c.trail.clear(); std::string t = text(k); if (t.find('\0') != std::string::npos) t = t.c_str();
    r.dirty = r.cmd(t); c.exec(); c.want(r.dirty ? "commands which changed something" : "commands without effect");
    if (r.dirty && (reopen_each == 1 || (reopen_each && n++ % reopen_each == 0))) r.reopen();
  }
  if (!r.dirty) { r.c.trail = "reopen after rejected commands"; r.st.vars["ssn"] = base().st.vars.at("ssn"); r.reopen(); }
  c.state(from * 7 + to);
}
static const int B = 100;
static void add(std::vector<Family>& f, const std::string& name, uint64_t n, std::function<std::string(uint64_t)> text, int reopen_each) {
  f.push_back({name, (n + B - 1) / B, [n, text, reopen_each](Ctx& c, uint64_t i) { batch(c, i * B, std::min<uint64_t>(n, (i + 1) * B), text, reopen_each); }});
}
// templates which change the definition of clouds, storages, pipeline or settings, from some state
static bool is_ddl(const std::string& t) { static const char* w[] = {"set ", "create cloud", "create storage", "drop cloud", "drop storage", "alter "}; for (auto x : w) if (t.compare(0, strlen(x), x) == 0) return true; return false; }
static std::vector<std::string> ddl_set() {
  std::vector<std::string> v; for (auto& t : templates()) if (is_ddl(t)) v.push_back(t);
  return v;
}
// a configuration change which fails because of an I/O error must leave everything as it was
static void run_unsaved(Ctx& c, const std::vector<std::string>& first, const std::string& last) {
  for (int kind : {fs::Fault::ONCE, fs::Fault::STICKY, fs::Fault::SHORT}) for (uint64_t at = 0;; at++) {
    size_t tr = c.trail.size(); Run r(c); r.exact0 = false; r.fresh(); for (auto& t : first) if (!r.cmd(t)) return;
    DState old = r.st, nw = r.st; RExec x = ref_exec(nw, last); if (x.res != R_OK || x.maint || old.show(false, true) == nw.show(false, true)) return;
    c.note("%s, I/O error%s at call %" PRIu64, last.c_str(), kind == fs::Fault::STICKY ? " until repaired" : "", at);
    fs::Fault ft; ft.kind = (fs::Fault::Kind)kind; ft.at = at; fs::arm(ft); bool ok; { Elsewhere other; ok = r.db.exec(last); } fs::disarm(); bool fired = fs::fault_fired(); std::string where = fs::fault_where(), err = r.db.err; c.exec();
    if (!fired) { if (!ok) fail("valid command rejected", "%s: %s", last.c_str(), err.c_str()); break; }
    c.note("  %s -> %s", where.c_str(), ok ? "ok" : err.c_str()); c.want("changes which could not be saved");
    DState g = read_state(r.db, true); r.st = ok ? nw : old; adopt(r.st, g); std::string d = state_diff(r.st, g, true); if (!d.empty()) fail(ok ? "effect of a command during which a call failed" : "a failed configuration change changed the state", "%s: %s (%s)", last.c_str(), d.c_str(), where.c_str());
    buckets(r.st, false, "after a failed configuration change"); r.events("events after a failed configuration change"); fs::Image im = fs::snapshot(); DState st = r.st; std::string fp = finger(r.db);
    // the same command again and a restart
    if (!ok) { r.fp = fp; r.cmd(last); } c.state(c.index * 4096 + at * 4 + kind); r.reopen();
    // a restart right away
    r.db.close(); r.open = false; fs::restore(im); sched::reset_objects(); if (!r.db.open()) fail("database cannot be opened after a failed configuration change", "%s (%s)", r.db.err.c_str(), where.c_str()); r.open = true; r.st = st; r.reopen(); r.db.close(); r.open = false;
    check_no_handles("after a failed configuration change"); c.trail.resize(tr);
  }
  if (c.index % 53 == 3) c.sample(c.trail + last);
}
struct Img { fs::Image img; std::string what; };
static DState saved(DState s) { for (auto& v : s.vars) if (!v.second.saved && v.first != "directory") v.second = base().st.vars.at(v.first); return s; }
// every storage of the base database with one or two options, in one command
static const std::vector<std::string>& option_pairs() {
  static std::vector<std::string> v; if (!v.empty()) return v;
  static const char* o[] = {"path 'q'", "path ''", "cloud 'c2'", "cloud ''", "cloud 'r1'", "cloud 'nope'", "cloud_drop_local true", "cloud_drop_local false", "sync false", "crc true", "crc false", "refresh_wm 1", "region_size 7", "compression 'zstd'", "compression 'none'", "compression_level 3", "encryption 'aes'", "encryption 'none'", "encryption_key '0123456789abcdef0123456789abcdef'"};
  for (auto n : {"main", "s1", "s2", "s3", "s5"}) for (auto a : o) { v.push_back(strf("alter storage %s set (%s)", n, a)); for (auto b : o) v.push_back(strf("alter storage %s set (%s, %s)", n, a, b)); }
  return v;
}
// whatever was accepted: the same definition and the same events after a restart and after a crash
static void run_option(Ctx& c, const std::string& t) {
  for (int crash = 0; crash < 2; crash++) {
    Run r(c); r.fresh(); c.note("%s", t.c_str()); c.exec(); if (!r.db.exec(t)) { c.want("rejected option changes"); return; }
    DState was = read_state(r.db, true); Model m = r.st.events(); bool rd = readable(r.st);
    if (crash) { fs::Image im = fs::snapshot(); r.db.close(); fs::restore(im); sched::reset_objects(); } else r.db.close();
    r.open = false; if (!r.db.open()) fail("open after an option change", "%s: %s", t.c_str(), r.db.err.c_str()); r.open = true;
    DState g = read_state(r.db, true), w = saved(was);
    for (auto& p : was.parts) if (p.second.local || p.second.cloud) { auto i = g.parts.find(p.first); if (i == g.parts.end() || i->second.storage != p.second.storage || i->second.local != p.second.local || i->second.cloud != p.second.cloud) fail("partition after an option change and a restart", "%s: %" PRIu64 " on %s is not found there again", t.c_str(), p.first, p.second.storage.c_str()); }
    w.vars["ssn"] = g.vars["ssn"]; std::string d = state_diff(w, g, false); if (!d.empty()) fail("definition after an option change and a restart", "%s: %s", t.c_str(), d.c_str());
    if (rd && r.st.ghost.empty()) check_scan(r.db, m, "events after an option change and a restart");
    auto b = std::vector<Ev>{put(3, "y"), put(52, "z"), put(777, "t")}; r.db.must_write(b); upd(m, b); if (rd && r.st.ghost.empty()) check_scan(r.db, m, "events written after an option change");
    c.state(c.index * 2 + crash);
  }
}
// commands, accepted or rejected, must return all memory (C20)
void command_memory(bool th, std::vector<Family>& f) {
  size_t n = templates().size();
  auto one = [](Ctx& c, std::vector<std::string> ts) { HeapWatch hw; Run r(c); r.fresh(); for (auto& t : ts) { c.note("%s", t.c_str()); std::string o; if (t.compare(0, 4, "show")) r.db.exec(t); else r.db.exec(t, &o); c.exec(); } r.db.close(); r.open = false; };
  f.push_back({"memory of commands", n, [one](Ctx& c, uint64_t i) { one(c, {templates()[i]}); }});
  f.push_back({"memory of commands, pairs", n * n, [one, n](Ctx& c, uint64_t i) { one(c, {templates()[i / n], templates()[i % n]}); }});
  f.push_back({"memory of commands, options", option_pairs().size(), [one](Ctx& c, uint64_t i) { one(c, {option_pairs()[i]}); }});
  f.push_back({"memory of commands, edits", n, [th](Ctx& c, uint64_t i) { HeapWatch hw; Run r(c); auto p = pieces(templates()[i]); uint64_t m = edits(p.size()); r.fresh(); for (uint64_t k = 0; k < m; k += th ? 1 : 3) { if (k % 60 == 0) { r.fresh(); c.trail.clear(); } std::string t = edit(p, k), o; c.note("%s", t.c_str()); r.db.exec(t, &o); c.exec(); } r.db.close(); r.open = false; }});
  static std::vector<std::string> U; U = ddl_set();
  f.push_back({"memory of commands with errors", U.size(), [](Ctx& c, uint64_t i) { HeapWatch hw; for (int kind : {fs::Fault::ONCE, fs::Fault::STICKY, fs::Fault::SHORT}) for (uint64_t at = 0;; at++) { Run r(c); c.trail.clear(); r.fresh(); c.note("%s, I/O error%s at call %" PRIu64, U[i].c_str(), kind == fs::Fault::STICKY ? " until repaired" : "", at); fs::Fault ft; ft.kind = (fs::Fault::Kind)kind; ft.at = at; fs::arm(ft); r.db.exec(U[i]); fs::disarm(); bool hit = fs::fault_fired(); c.exec(); r.db.close(); r.open = false; if (!hit) break; } }});
}
static PropReg c21({"C21", "model_checking",
  "commands executed on a database with every kind of object and partition and compared, after each, with an independent reference parser and interpreter: accepted or rejected as specified, exactly the specified effect on clouds, storages, pipeline, settings, partitions and events, nothing at all changed by a rejected command, also after restart. Families: every template command, every one and two options of every storage, every ordered pair (thorough: triple) of templates, every single edit (delete, duplicate, swap, replace by and insert each of the alphabet) of every template's tokens (thorough: every two edits of templates up to four tokens), every truncation and every replacement of a character, every sequence of 3 (thorough: 4) tokens of the alphabet, every unit with boundary numbers, every boundary value of storage options and of inherited settings followed by writes, refresh and restart; every configuration command, alone and after every other, with an I/O error (once, or until repaired) at each of its calls: a command which then fails must have changed nothing, also after restart, and must succeed when repeated.",
  {"strings contain no NUL", "single client thread"},
  [](bool th, std::vector<Family>& f) {
    auto& T = templates(); size_t n = T.size();
    f.push_back({"templates", n, [](Ctx& c, uint64_t i) { Run r(c); r.fresh(); r.cmd(templates()[i]); r.reopen(); c.exec(); if (i % 37 == 1) c.sample(templates()[i]); c.state(i); }});
    f.push_back({"pairs", n * n, [n](Ctx& c, uint64_t i) { Run r(c); r.fresh(); if (!r.cmd(templates()[i / n])) return; r.cmd(templates()[i % n]); r.reopen(); c.exec(); c.state(i); }});
    f.push_back({"option pairs", option_pairs().size(), [](Ctx& c, uint64_t i) { Run r(c); r.fresh(); r.cmd(option_pairs()[i]); r.reopen(); c.exec(); c.state(i); }});
    static std::vector<std::vector<std::string>> pc; static std::vector<uint64_t> at; pc.clear(); at.clear(); uint64_t tot = 0;
    for (auto& t : T) { auto p = pieces(t); pc.push_back(p); at.push_back(tot); tot += edits(p.size()); }
    auto locate = [](uint64_t k, uint64_t* o) { size_t i = std::upper_bound(at.begin(), at.end(), k) - at.begin() - 1; *o = k - at[i]; return i; };
    add(f, "edits", tot, [locate](uint64_t k) { uint64_t o; size_t i = locate(k, &o); return edit(pc[i], o); }, 7);
    static std::vector<std::pair<size_t, size_t>> ch; ch.clear(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= T[i].size(); j++) ch.push_back({i, j});
    static const char sub[] = {0, '\'', '"', '#', '\\', '\n', '7', '.', '(', ')', ',', 'e', ' ', '\x80', '\x01'};
    add(f, "characters", ch.size() * sizeof sub, [](uint64_t k) { auto& x = ch[k / sizeof sub]; std::string t = templates()[x.first]; char s = sub[k % sizeof sub]; if (!s) return t.substr(0, x.second); if (x.second < t.size()) t[x.second] = s; else t += s; return t; }, 7);
    if (th) {
      f.push_back({"triples", n * n * n, [n](Ctx& c, uint64_t i) { Run r(c); r.fresh(); if (!r.cmd(templates()[i / n / n]) || !r.cmd(templates()[i / n % n])) return; r.cmd(templates()[i % n]); r.reopen(); c.exec(); c.state(i); }});
      static std::vector<size_t> sh; static std::vector<uint64_t> sat; sh.clear(); sat.clear(); uint64_t tot2 = 0;
      for (size_t i = 0; i < n; i++) if (pc[i].size() <= 4 && pc[i].size() > 0) { sh.push_back(i); sat.push_back(tot2); uint64_t e = edits(pc[i].size()); tot2 += e * (edits(pc[i].size() + 1)); }
      add(f, "double edits", tot2, [](uint64_t k) { size_t i = std::upper_bound(sat.begin(), sat.end(), k) - sat.begin() - 1; uint64_t o = k - sat[i]; auto& p = pc[sh[i]]; uint64_t e = edits(p.size()); auto q = pieces(edit(p, o % e)); o /= e; if (o >= edits(q.size())) return std::string(); return edit(q, o); }, 7);
    }
    auto& A = alphabet(); size_t a = A.size(); int len = th ? 4 : 3;
    add(f, "sequences", [](uint64_t x, int y) { uint64_t r = 1; while (y--) r *= x; return r; }(a, len), [a, len](uint64_t k) { std::string t; for (int j = 0; j < len; j++) { t += alphabet()[k % a] + (k % 3 ? " " : "\t"); k /= a; } return t; }, 7);
    static std::vector<std::string> num; num.clear();
    { const char* us[] = {"", "us", "microseconds", "ms", "milliseconds", "sec", "second", "seconds", "min", "minute", "minutes", "hr", "hour", "hours", "day", "days", "week", "weeks", "month", "months", "year", "years", "kb", "kib", "k", "mb", "mib", "m", "gb", "gib", "g", "tb", "tib", "t", "KB", "Day"};
      const char* ns[] = {"0", "1", "2", "7", "10", "999", "007", "2147483647", "2147483648", "4294967296", "9223372036854775", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "184467440737095517", "18014398509481984", "213503982", "30500568", "30500569", "593066", "16777216", "17179869184"};
      for (auto u : us) for (auto m : ns) for (auto t : {"set test_int to %s%s", "set test_int to %s %s", "set interval to %s %s", "alter storage s3 set (refresh_wm %s%s)", "alter pipeline set s3 (duration %s %s), main", "drop partition if exists %s%s", "create partition 60 %s%s"}) num.push_back(strf(t, m, u)); }
    add(f, "numbers", num.size(), [](uint64_t k) { return num[k]; }, 3);
    static std::vector<std::string> blanks; blanks.clear();
    for (auto& t : T) { auto p = pieces(t); for (auto s : {"\n", "\t \r\n", " # x 'y\n", "  \v\f"}) { std::string r = s; for (auto& x : p) r += x + s; blanks.push_back(r); } std::string u; for (auto& x : p) { bool q = x[0] == '\'' || x[0] == '"'; std::string y = x; if (!q) { std::string l = y; for (auto& z : y) z = toupper(z); } u += (u.empty() ? "" : " ") + y; } blanks.push_back(u);
      std::string z; for (size_t j = 0; j < p.size(); j++) { if (j && (isalnum((unsigned char)p[j][0]) || p[j][0] == '_') && (isalnum((unsigned char)p[j - 1].back()) || p[j - 1].back() == '_')) z += " "; z += p[j]; } blanks.push_back(z); }
    add(f, "spelling", blanks.size(), [](uint64_t k) { return blanks[k]; }, 3);
    static std::vector<std::string> rep; rep.clear(); for (auto& x : A) for (int k : {1, 2, 3, 4, 5, 6, 7, 8, 20, 1000}) for (auto h : {"", "create partition ", "show ", "alter storage s3 set (", "set test_int to ", "drop partition if "}) { std::string t = h; for (int j = 0; j < k; j++) t += x + " "; rep.push_back(t); }
    add(f, "repeats", rep.size(), [](uint64_t k) { return rep[k]; }, 7);
    static std::vector<std::string> U; U = ddl_set(); size_t u = U.size();
    f.push_back({"changes which cannot be saved", u, [](Ctx& c, uint64_t i) { c.index = i; run_unsaved(c, {}, U[i]); }});
    f.push_back({"changes which cannot be saved, pairs", u * u, [u](Ctx& c, uint64_t i) { c.index = i; run_unsaved(c, {U[i / u]}, U[i % u]); }});
    // every value of an option which is accepted must work
    static std::vector<std::string> ov; ov.clear();
    for (auto v : {"0", "1", "2", "9", "22", "23", "100", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615"}) for (auto o : {"refresh_wm", "region_size", "compression_level"}) for (auto cm : {"none", "zstd", "lz4"}) ov.push_back(strf("%s %s, compression '%s'", o, v, cm));
    f.push_back({"option values", ov.size(), [](Ctx& c, uint64_t i) {
      Run r(c); r.fresh(); std::string t = "alter storage main set (" + ov[i] + ")"; c.note("%s", t.c_str()); if (!r.db.exec(t)) return;
      Model m = r.st.events(); auto b = std::vector<Ev>{put(3, std::string(3000, 'x')), put(4, "y"), put(52, std::string(100, 'z'))}; r.db.must_write(b); upd(m, b); check_scan(r.db, m, "events after an option value");
      r.db.must("refresh partitions between 0 and 100"); check_scan(r.db, m, "events refreshed with an option value"); b = {put(5, "w")}; r.db.must_write(b); upd(m, b);
      r.db.close(); if (!r.db.open()) fail("open with an option value", "%s", r.db.err.c_str()); r.open = true; check_scan(r.db, m, "events after restart with an option value"); for (int k = 0; k < 10; k++) r.db.must("service"); check_scan(r.db, m, "events after service with an option value"); c.exec(); c.state(i); }});
    // settings which new storages inherit, and settings of the log
    static std::vector<std::string> sv; sv.clear();
    for (auto v : {"''", "'none'", "'zstd'", "'lz4'", "'nope'", "'LZ4'", "' '"}) for (auto l : {"0", "1", "22", "1000", "4294967295", "9223372036854775808", "18446744073709551615"}) sv.push_back(strf("set compression to %s;set compression_level to %s", v, l));
    for (auto v : {"0", "1", "100", "4294967296", "9223372036854775808", "18446744073709551615"}) { sv.push_back(strf("set wal_rotate_wm to %s", v)); sv.push_back(strf("set interval to %s", v)); }
    f.push_back({"setting values", sv.size(), [](Ctx& c, uint64_t i) {
      Run r(c); r.fresh(); std::string t = sv[i]; size_t p = t.find(';'); for (auto& x : {t.substr(0, p), p == std::string::npos ? std::string() : t.substr(p + 1)}) { c.note("%s", x.c_str()); r.db.exec(x); }
      if (!r.db.exec("create storage s4")) { c.exec(); return; } Model m = r.st.events(); auto b = std::vector<Ev>{put(3, std::string(3000, 'x')), put(4, "y"), put(52, std::string(100, 'z')), put(777, "t")}; r.db.must_write(b); upd(m, b); check_scan(r.db, m, "events after a setting");
      r.db.must("move partitions between 0 and 100 into s4"); check_scan(r.db, m, "events moved into a storage which inherited a setting"); b = {put(5, "w")}; r.db.must_write(b); upd(m, b);
      for (int k = 0; k < 2; k++) { r.db.close(); if (!r.db.open()) fail("open with a setting", "%s", r.db.err.c_str()); r.open = true; check_scan(r.db, m, "events after restart with a setting"); for (int k = 0; k < 10; k++) r.db.must("service"); r.db.must("refresh partitions between 0 and 1000"); r.db.must("debug 'wal_gc'"); check_scan(r.db, m, "events after service with a setting"); } c.exec(); c.state(i); }});
  }});

// ---- C09: configuration changes are durable and atomic
// the database as found after a restart must be one of the wanted states
static DState recovered(Db& db, const std::vector<DState>& want, const std::string& sig, const std::string& what) {
  DState g = read_state(db, true); std::string why;
  for (auto w : want) {
    w = saved(w); w.vars["ssn"] = g.vars["ssn"]; adopt(w, g); std::string d = state_diff(w, g, false); if (!d.empty()) { why += d + "; "; continue; }
    for (auto& p : w.parts) if (p.second.local || p.second.cloud) { auto i = g.parts.find(p.first); if (i == g.parts.end()) { if (p.second.stored.empty()) continue; fail(sig + ": partition missing", "%" PRIu64 " (%s)", p.first, what.c_str()); }
      if (i->second.storage != p.second.storage || i->second.local != p.second.local || i->second.cloud != p.second.cloud) fail(sig + ": partition placement", "%" PRIu64 ": expected %s %d %d, got %s %d %d (%s)", p.first, p.second.storage.c_str(), p.second.local, p.second.cloud, i->second.storage.c_str(), i->second.local, i->second.cloud, what.c_str()); }
    // partitions without files are created anew by the replay, in the storage of the moment
    for (auto& p : g.parts) { auto i = w.parts.find(p.first); if (i == w.parts.end()) { w.parts[p.first] = p.second; continue; } if (!i->second.local && !i->second.cloud) i->second.storage = p.second.storage; }
    return w;
  }
  fail(sig + ": neither the old nor the new definition", "%s(%s)", why.c_str(), what.c_str());
}
static void ghosts(DState& st, Db& db) {
  if (st.ghost.empty() || !readable(st)) return; std::vector<std::pair<Key, std::string>> got; if (!db.scan(&got)) fail("scan after restart", "%s", db.err.c_str()); Model all = st.events();
  for (auto& g : got) { auto h = st.ghost.find(g.first); if (h != st.ghost.end() && h->second == g.second && !all.count(g.first)) for (auto& p : st.parts) if (g.first.first >= p.second.min && g.first.first <= p.second.max) p.second.mem[g.first] = g.second; }
}
static bool restart_ok(Db& db) { db.close(); sched::reset_objects(); return db.open(); }
// one recovered image: definition, contents, the command again, new data, restart
static void verify_image(Ctx& c, const Img& im, const std::vector<DState>& want, const std::string& cmd, bool deep, int nested) {
  fs::restore(im.img); sched::reset_objects(); fs::clock_frozen = true; Db db; db.pre = pre(); size_t trail = c.trail.size(); c.note("-- crash %s", im.what.c_str()); c.exec(); c.state(im.img.hash() * 31 + nested);
  std::vector<Img> next; std::unordered_set<uint64_t> seen; bool ok;
  if (nested) { fs::set_recorder([&](const fs::Point& p, const fs::Image& i2) { if (seen.insert(i2.hash()).second) next.push_back({i2, strf("before %s %s%s", fs::op_name[p.op], p.path.c_str(), p.what.empty() ? "" : (" " + p.what).c_str())}); }, true); ok = db.open(); fs::clear_recorder(); } else ok = db.open();
  if (!ok) fail("open after a crash during a configuration change failed", "%s (%s)\nfiles:\n%s", db.err.c_str(), im.what.c_str(), im.img.list().c_str());
  DState st = recovered(db, want, "after a crash", im.what); ghosts(st, db); buckets(st, false, "after a crash during a configuration change"); if (readable(st)) check_scan(db, st.events(), "events after a crash during a configuration change");
  if (deep) {
    // the interrupted command again: same outcome as the reference, also in the file
    { DState n = st; RExec r = ref_exec(n, cmd); bool e = db.exec(cmd); if (r.res != R_ANY && e != (r.res == R_OK)) fail("repeating an interrupted configuration change", "%s: expected %s, got %s (%s)", cmd.c_str(), r.res == R_OK ? "success" : ("an error: " + r.why).c_str(), e ? "success" : db.err.c_str(), im.what.c_str());
      if (e) st = n; DState g = read_state(db, false); st.vars["ssn"] = g.vars["ssn"]; adopt(st, g); std::string d = state_diff(st, g, false); if (!d.empty()) fail("definition after repeating an interrupted configuration change", "%s (%s)", d.c_str(), im.what.c_str()); }
    Model m = st.events(); std::vector<Ev> b = {put(3, "new"), put(14, "new"), put(95, "new")}; db.must_write(b); upd(m, b); db.exec("refresh partitions between 0 and 1000"); if (readable(st)) check_scan(db, m, "events written after a crash during a configuration change");
    if (!restart_ok(db)) fail("second open after a crash during a configuration change failed", "%s", db.err.c_str());
    DState g = read_state(db, false); DState w = saved(st); w.vars["ssn"] = g.vars["ssn"]; adopt(w, g); std::string d = state_diff(w, g, false); if (!d.empty()) fail("definition after the second restart", "%s (%s)", d.c_str(), im.what.c_str());
    if (st.ghost.empty() && readable(st)) check_scan(db, m, "events after the second restart");
  }
  db.close(); check_no_handles("after a crash during a configuration change");
  for (auto& n : next) verify_image(c, n, want, cmd, false, 0);
  c.trail.resize(trail);
}
static void run_ddl(Ctx& c, const std::vector<std::string>& first, const std::string& last, bool power) {
  Run r(c); r.fresh(); if (power) { r.db.close(); fs::Image im = base().img; im = fs::lose(im, fs::L_NONE); fs::restore(im); sched::reset_objects(); if (!r.db.open()) fail("open failed", "%s", r.db.err.c_str()); r.st.vars["ssn"] = read_state(r.db, false).vars["ssn"]; r.fp = finger(r.db); }
  for (auto& t : first) if (!r.cmd(t)) return;
  DState old = r.st, nw = r.st; RExec x = ref_exec(nw, last); if (x.res != R_OK || x.maint) return;
  if (old.show(false, true) == nw.show(false, true)) return;
  std::vector<Img> imgs; std::unordered_set<uint64_t> seen; c.note("%s", last.c_str());
  fs::set_recorder([&](const fs::Point& p, const fs::Image& im) { if (seen.insert(im.hash(power)).second) imgs.push_back({im, strf("before %s %s%s", fs::op_name[p.op], p.path.c_str(), p.what.empty() ? "" : (" " + p.what).c_str())}); }, true);
  bool ok = r.db.exec(last); fs::clear_recorder(); if (!ok) fail("valid command rejected", "%s: %s", last.c_str(), r.db.err.c_str());
  DState g = read_state(r.db, false); adopt(nw, g); fs::Image end = fs::snapshot(); r.db.close(); r.open = false;
  for (auto& im : imgs) {
    if (!power) { verify_image(c, im, {old, nw}, last, true, first.empty() ? 1 : 0); continue; }
    auto u = fs::unflushed(im.img);
    for (int v = 0; v < fs::L_COUNT; v++) { if (u.empty() && v) break; Img i2{fs::lose(im.img, v), im.what + strf(" [loss %d]", v)}; verify_image(c, i2, {old, nw}, last, v < 2, 0); }
    if (u.size() >= 2 && u.size() <= 4) for (uint32_t mask = 1; mask + 1 < (1u << u.size()); mask++) verify_image(c, {fs::lose_mask(im.img, mask), im.what + strf(" [loss mask %u]", mask)}, {old, nw}, last, false, 0);
  }
  // acknowledged: only the new definition
  if (!power) verify_image(c, {end, "after the command"}, {nw}, last, true, 0);
  else for (int v = 0; v < fs::L_COUNT; v++) verify_image(c, {fs::lose(end, v), strf("after the command [loss %d]", v)}, {nw}, last, v == 0, 0);
  c.want("configuration changes interrupted"); if (c.index % 911 == 5) c.sample(c.trail + last);
}
static PropReg c09({"C09", "model_checking",
  "every configuration command of the command templates (create, drop, rename and alter of storages and clouds, pipeline, settings), alone and after every other template command (thorough: every pair of configuration commands), on a database with every kind of partition: the process dies at every file-system call and after every leading part of every write (alone: and again at every call of the recovery); power is lost at every call with every pattern of unflushed data. The reopened database must have exactly the old or the new definition (after the command returned: the new one), compared field by field with a reference interpreter, with the same identities and all events; the command is then repeated, data is written and refreshed, and everything compared after another restart. Every storage with every one and every two options in one command, whether accepted or not: the same definition, partitions and events after a restart and after a crash.",
  {"directory operations are ordered and durable", "generated uuids and keys are taken from the implementation and must stay the same afterwards"},
  [](bool th, std::vector<Family>& f) {
    static std::vector<std::string> D; D = ddl_set(); auto& T = templates(); size_t d = D.size(), n = T.size();
    f.push_back({"alone", d, [](Ctx& c, uint64_t i) { c.index = i; run_ddl(c, {}, D[i], false); }});
    f.push_back({"pairs", n * d, [d](Ctx& c, uint64_t i) { c.index = i; run_ddl(c, {templates()[i / d]}, D[i % d], false); }});
    f.push_back({"options", option_pairs().size(), [](Ctx& c, uint64_t i) { c.index = i; run_option(c, option_pairs()[i]); }});
    f.push_back({"power", d, [](Ctx& c, uint64_t i) { c.index = i; run_ddl(c, {}, D[i], true); }});
    f.push_back({"power pairs", d * d, [d](Ctx& c, uint64_t i) { c.index = i; run_ddl(c, {D[i / d]}, D[i % d], true); }});
    if (th) f.push_back({"triples", d * d * d, [d](Ctx& c, uint64_t i) { c.index = i; run_ddl(c, {D[i / d / d], D[i / d % d]}, D[i % d], false); }});
  }});

// C13 tiering moves and drops exactly what the pipeline says
#include "alpha.h"
#include <inttypes.h>
#include <string.h>
#include <algorithm>

struct Tr { std::string st; int64_t parts = -1, kb = -1, events = -1, dur = -1; };
typedef std::vector<Tr> Pipe;
// every event has a value of 1000 bytes; a partition file with n events has n * 1020 bytes and a small overhead
static const int64_t UNIT = 1020;
static std::string pipe_cmd(const Pipe& p) {
  std::string s = "alter pipeline set ";
  for (size_t k = 0; k < p.size(); k++) {
    std::string o; auto addo = [&](const char* n, int64_t v) { if (v >= 0) o += (o.empty() ? "" : ", ") + std::string(n) + " " + std::to_string(v); };
    addo("partitions", p[k].parts); addo("size", p[k].kb < 0 ? -1 : p[k].kb * UNIT + 700); addo("events", p[k].events); addo("duration", p[k].dur < 0 ? -1 : p[k].dur * 1000000);
    s += (k ? ", " : "") + p[k].st + (o.empty() ? "" : " (" + o + ")");
  }
  return s;
}
static Tr T(const char* s, int64_t parts = -1, int64_t events = -1, int64_t kb = -1, int64_t dur = -1) { Tr t; t.st = s; t.parts = parts; t.events = events; t.kb = kb; t.dur = dur; return t; }
static const std::vector<Pipe>& pipes() {
  static std::vector<Pipe> v;
  if (v.empty()) {
    v.push_back({T("main", 1)}); v.push_back({T("main", 2)}); v.push_back({T("main", 0)});
    v.push_back({T("main", 1), T("s1")}); v.push_back({T("main", 1), T("s1", 1)}); v.push_back({T("main", 1), T("s1", 1), T("s2", 1)}); v.push_back({T("main", 0), T("s1", 2), T("s2")});
    v.push_back({T("main", -1, 1), T("s1", -1, 2)}); v.push_back({T("main", -1, 0), T("s1", -1, 1), T("s2", 1)}); v.push_back({T("main", -1, 2)});
    v.push_back({T("main", -1, -1, 1), T("s1", -1, -1, 2), T("s2")}); v.push_back({T("main", -1, -1, 2), T("s2", -1, -1, 1)});
    v.push_back({T("main", -1, -1, -1, 5), T("s1")}); v.push_back({T("main", -1, -1, -1, 5), T("s1", -1, -1, -1, 12)}); v.push_back({T("main", 2, -1, -1, 5), T("s1", 1, 2)});
    v.push_back({T("s1", 1), T("main", 1)}); v.push_back({T("s2", 1, 1), T("s1", 1), T("main")});
  }
  return v;
}
struct PS { uint64_t created; std::string st; int64_t fe; bool file; };   // file events
typedef std::map<uint64_t, PS> State;
static int64_t live(const Model& m, uint64_t min) { int64_t n = 0; for (auto& e : m) if (e.first.first >= min && e.first.first <= min + 9) n++; return n; }
static State observe(Db& db) {
  J j = parse_json(db.must("show partitions")); State s;
  for (size_t i = 0; i < j.size(); i++) { const J& p = j[i]; s[p["min"].u] = PS{p["created"].u, p["storage"].s, (int64_t)p["events"].u - (int64_t)p["events_heap"].u, p["on_storage"].b || p["on_cloud"].b}; }
  return s;
}
std::string show(const State& s) { std::string r; for (auto& p : s) r += strf("%" PRIu64 ":%s(created %" PRIu64 ", events %" PRId64 "%s) ", p.first, p.second.st.c_str(), p.second.created % 100000000000, p.second.fe, p.second.file ? "" : ", no file"); return r; }
// reference rebalance; erases the events of dropped partitions
static int rebalance(State& s, Model& m, const Pipe& pipe, uint64_t now) {
  int steps = 0;
  for (;; steps++) {
    bool done = true;
    for (size_t t = 0; t < pipe.size() && done; t++) {
      auto& c = pipe[t]; int64_t n = 0, ev = 0; uint64_t old = 0; bool any = false;
      for (auto& p : s) if (p.second.st == c.st) { n++; ev += p.second.fe; if (!any || p.second.created < s[old].created) { old = p.first; any = true; } }
      bool over = (c.parts >= 0 && n > c.parts) || (c.kb >= 0 && ev > c.kb) || (c.events >= 0 && ev > c.events) || (c.dur >= 0 && any && now - s[old].created >= (uint64_t)c.dur * 1000000);
      if (!over || !any) continue;
      done = false;
      if (t + 1 == pipe.size()) { for (auto i = m.begin(); i != m.end();) if (i->first.first >= old && i->first.first <= old + 9) i = m.erase(i); else ++i; s.erase(old); }
      else { s[old].st = pipe[t + 1].st; s[old].fe = live(m, old); s[old].file = true; }
    }
    if (done) return steps;
  }
}
enum { P_W0, P_W1, P_W2, P_W23, P_W3M, P_DEL, P_REF0, P_REFALL, P_CLOCK, P_REB, P_SVC, P_REOPEN, P_KILL, P_DROP1, P_MOVE0, P_MOVEALL, P_CREATE, P_CKPT, P_ALTER, P_COUNT };
struct PW {
  World w; State s; Pipe pipe; int cloud; bool queued = false; int n = 0;
  PW(int cl) : w(L_PLAIN, {"set interval to 10"}), cloud(cl) {}
  std::string primary() { return pipe.empty() ? "main" : pipe[0].st; }
  void start() {
    static std::map<int, fs::Image> cache; fs::clock_frozen = false; fs::now_us = 1700000000ull * 1000000ull; auto c = cache.find(cloud);
    if (c == cache.end()) {
      fs::reset(); if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str());
      w.db.must("alter storage main set (compression 'none')"); w.db.must("create storage s1 (region_size 1500, compression 'none')"); w.db.must("create storage s2 (crc true, compression 'none')");
      if (cloud) { w.db.must(create_cloud(cloud == 2)); w.db.must("alter storage s1 set (cloud 'cl')"); if (cloud == 2) w.db.must("alter storage s1 set (cloud_drop_local false)"); }
      w.db.close(); c = cache.emplace(cloud, fs::snapshot()).first;
    }
    fs::restore(c->second); sched::reset_objects(); if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str());
  }
  void set(const Pipe& p) { g_ctx->note("%s", pipe_cmd(p).c_str()); w.db.must(pipe_cmd(p)); pipe = p; }
  void compare(const std::string& sig) {
    State o = observe(w.db);
    for (auto& p : s) { auto i = o.find(p.first); if (i == o.end()) fail(sig + ": a partition disappeared", "partition %" PRIu64 "; expected %s; got %s", p.first, show(s).c_str(), show(o).c_str());
      if (i->second.st != p.second.st) fail(sig + ": partition is in another storage", "partition %" PRIu64 "; expected %s; got %s", p.first, show(s).c_str(), show(o).c_str());
      if (i->second.created != p.second.created) fail(sig + ": creation time of a partition changed", "partition %" PRIu64 "; expected %s; got %s", p.first, show(s).c_str(), show(o).c_str());
      if (i->second.fe != p.second.fe) fail(sig + ": number of stored events differs", "partition %" PRIu64 "; expected %s; got %s", p.first, show(s).c_str(), show(o).c_str()); }
    for (auto& p : o) if (!s.count(p.first)) fail(sig + ": a partition was not dropped or appeared", "partition %" PRIu64 "; expected %s; got %s", p.first, show(s).c_str(), show(o).c_str());
    s = o; w.check(sig);
  }
  void reb(const std::string& sig) { if (g_ctx->verbose) g_ctx->note("%s", ::show(observe(w.db)).c_str());
    g_ctx->note("rebalance"); State b = s; Model bm = w.m; int steps = rebalance(s, w.m, pipe, fs::now_us); w.allowed = {w.m};
    g_ctx->want("rebalance steps", steps);
    w.db.must("rebalance"); compare(sig);
  }
  void batch(std::vector<uint64_t> parts) {
    std::vector<Ev> b; std::set<uint64_t> fresh; n++;
    for (auto p : parts) { b.push_back(put(p * 10 + n % 10, std::string(999, (char)('a' + n % 26)) + "x")); if (!s.count(p * 10)) fresh.insert(p * 10); }
    g_ctx->note("write %s", ::show(b).c_str()); uint64_t t0 = fs::now_us; w.db.must_write(b); upd(w.m, b); uint64_t t1 = fs::now_us;
    State o = observe(w.db);
    for (auto p : fresh) { auto i = o.find(p); if (i == o.end()) fail("write: partition was not created", "%" PRIu64, p); if (i->second.created < t0 || i->second.created > t1) fail("write: creation time of a new partition is not the present", "%" PRIu64 " not in %" PRIu64 "..%" PRIu64, i->second.created, t0, t1); s[p] = PS{i->second.created, primary(), 0, false}; if (!pipe.empty()) queued = true; }
    compare("after a write");
  }
  void refreshed(uint64_t id) { auto i = s.find(id); if (i == s.end()) return; i->second.fe = live(w.m, id); i->second.file = true; }
  void reopen(bool kill) {
    g_ctx->note(kill ? "crash and reopen" : "reopen"); fs::Image im; if (kill) im = fs::snapshot(); w.db.close(); if (kill) { fs::restore(im); sched::reset_objects(); } else check_no_handles("reopen");
    if (!w.db.open()) fail("reopen failed", "%s", w.db.err.c_str());
    State o = observe(w.db); std::set<uint64_t> l; for (auto& e : w.m) l.insert(e.first.first / 10 * 10);
    for (auto i = s.begin(); i != s.end();) if (!i->second.file) { auto j = o.find(i->first); if (j == o.end()) { if (l.count(i->first)) fail("reopen: partition missing", "%" PRIu64, i->first); i = s.erase(i); continue; } i->second.created = j->second.created; i->second.st = primary(); i->second.fe = 0; ++i; } else ++i;
    for (auto i = s.begin(); i != s.end();) if (!l.count(i->first) && !o.count(i->first)) i = s.erase(i); else ++i;   // partitions without events may be missing
    compare("after reopen"); queued = false;
  }
  // background work (rebalance requests of new partitions, refreshes of previous or checkpointed ones): which of them
  // run is not specified, so the outcome is taken over after checking what must hold in any case
  void service(bool ckpt = false) {
    State b = s; Model bm = w.m; w.settle(); State o = observe(w.db); auto pos = [&](const std::string& st) { for (size_t k = 0; k < pipe.size(); k++) if (pipe[k].st == st) return (int)k; return -1; };
    for (auto& p : b) {
      auto i = o.find(p.first);
      if (i == o.end()) { if (pipe.empty() || !can_drop()) fail("background work dropped a partition although the last storage has no limit", "%" PRIu64 ": %s", p.first, show(o).c_str()); if (pos(p.second.st) < 0) fail("background work dropped a partition which is not in the pipeline", "%" PRIu64, p.first); for (auto e = w.m.begin(); e != w.m.end();) if (e->first.first >= p.first && e->first.first <= p.first + 9) e = w.m.erase(e); else ++e; continue; }
      if (i->second.created != p.second.created) fail("background work changed the creation time", "%" PRIu64 ": expected %s; got %s", p.first, show(b).c_str(), show(o).c_str());
      if (i->second.st != p.second.st && (pos(p.second.st) < 0 || pos(i->second.st) < pos(p.second.st))) fail("background work moved a partition backwards or out of the pipeline", "%" PRIu64 ": expected %s; got %s", p.first, show(b).c_str(), show(o).c_str());
      if (i->second.fe != p.second.fe && i->second.fe != live(bm, p.first)) fail("background work: number of stored events differs", "%" PRIu64 ": expected %s; got %s", p.first, show(b).c_str(), show(o).c_str());
    }
    for (auto& p : o) if (!b.count(p.first)) fail("background work created a partition", "%" PRIu64, p.first);
    // a rebalance is requested for each new partition (it skips partitions which wait for a refresh)
    if (queued && !ckpt) for (auto& t : pipe) if (t.parts >= 0) { int64_t n = 0; for (auto& p : o) if (p.second.st == t.st) n++; if (n > t.parts) fail("background rebalance left too many partitions", "%s: %s", t.st.c_str(), show(o).c_str()); }
    for (auto& p : o) if (p.second.file) s[p.first].file = true;
    s = o; w.check("after service"); queued = false; w.allowed = {w.m};
  }
  bool can_drop() { auto& t = pipe.back(); return t.parts >= 0 || t.kb >= 0 || t.events >= 0 || t.dur >= 0; }
  void act(int a) {
    switch (a) {
      case P_W0: batch({0}); break;
      case P_W1: batch({1}); break;
      case P_W2: batch({2}); break;
      case P_W23: batch({2, 3}); break;
      case P_W3M: batch({3, 1, 0}); break;
      case P_DEL: { std::vector<Ev> b; for (auto& e : w.m) if (e.first.first < 20) { b.push_back(del(e.first.first, e.first.second)); if (b.size() == 1) break; } if (b.empty()) break; g_ctx->note("delete %s", ::show(b).c_str()); w.db.must_write(b); upd(w.m, b); compare("after a delete"); break; }
      case P_REF0: g_ctx->note("refresh 0"); w.db.must("refresh partition if exists 0"); refreshed(0); compare("after refresh"); break;
      case P_REFALL: { g_ctx->note("refresh all"); w.db.must("refresh partitions between 0 and 1000"); for (auto& p : s) refreshed(p.first); compare("after refresh"); break; }
      case P_CLOCK: g_ctx->note("6 seconds later"); fs::now_us += 6000000; break;
      case P_REB: reb("after rebalance"); break;
      case P_SVC: g_ctx->note("service"); service(); break;
      case P_REOPEN: reopen(false); break;
      case P_KILL: reopen(true); break;
      case P_DROP1: g_ctx->note("drop 10"); w.db.must("drop partition if exists 10"); s.erase(10); for (auto i = w.m.begin(); i != w.m.end();) if (i->first.first >= 10 && i->first.first <= 19) i = w.m.erase(i); else ++i; compare("after drop"); break;
      case P_MOVE0: { if (!s.count(0)) break; const char* to = s[0].st == "s2" ? "main" : s[0].st == "main" ? "s1" : "s2"; g_ctx->note("move 0 into %s", to); w.db.must(std::string("move partition 0 into ") + to); s[0].st = to; refreshed(0); compare("after move"); break; }
      case P_MOVEALL: { g_ctx->note("move all into s2"); w.db.must("move partitions between 0 and 1000 into s2"); for (auto& p : s) if (p.second.st != "s2") { p.second.st = "s2"; refreshed(p.first); } compare("after move"); break; }
      case P_CREATE: { if (s.count(10)) break; g_ctx->note("create partition 10 19"); w.db.must("create partition 10 19"); State o = observe(w.db); s[10] = PS{o.count(10) ? o[10].created : 0, primary(), 0, false}; if (!pipe.empty()) queued = true; compare("after create"); break; }
      case P_CKPT: g_ctx->note("checkpoint, service"); w.db.must("checkpoint"); service(true); for (auto& p : s) if (p.second.file && p.second.fe != live(w.m, p.first)) fail("number of stored events differs after checkpoint and service", "partition %" PRIu64 ": %s", p.first, show(s).c_str()); break;
      case P_ALTER: { static const Pipe other = {T("main", 1), T("s2", 1), T("s1", 1)}; if (pipe.empty()) break; set(other); break; }
    }
  }
};
static void runPipe(Ctx& c, int cloud, uint64_t i, const std::vector<int>& al, int len) {
  Elsewhere other;
  size_t np = pipes().size(); const Pipe& p = pipes()[i % np]; i /= np; bool late = i % 2; i /= 2;
  PW w(cloud); w.start(); w.n = 0;
  if (!late) w.set(p);
  for (int k = 0; k < len; k++) { w.act(al[i % al.size()]); i /= al.size(); }
  if (late) w.set(p);
  // nothing may be pending: work queued before
  g_ctx->note("service"); w.service();
  w.reb("after final rebalance"); State s1 = w.s;
  w.reb("after second rebalance");
  w.reopen(false);
  uint64_t h = hash_model(w.w.m); for (auto& x : w.s) h = h * 31 + std::hash<std::string>()(x.second.st) + x.first; c.state(h * 97 + c.index % (2 * np)); c.exec();
  if (c.index % 40009 == 5) c.sample(c.trail);
}
// pipelines which must be refused
static void runBad(Ctx& c, uint64_t i) {
  Elsewhere other;
  static const char* names[] = {"main", "s1", "s2", "s9"}; static const char* opts[] = {"", " (partitions 1)", " (events 1)", " (duration 1000000)"};
  std::string a[3], o[3]; int n = 1 + i % 3; i /= 3; std::string cmd = "alter pipeline set "; bool bad = false;
  for (int k = 0; k < 3; k++) { a[k] = names[i % 4]; i /= 4; o[k] = opts[i % 4]; i /= 4; }
  for (int k = 0; k < n; k++) { cmd += (k ? ", " : "") + a[k] + o[k]; if (a[k] == "s9") bad = true; if (k < n - 1 && o[k].empty()) bad = true; for (int q = 0; q < k; q++) if (a[q] == a[k]) bad = true; }
  PW w(0); w.start(); Pipe p0 = {T("main", 1), T("s1", 1), T("s2")}; w.set(p0); std::string before = w.w.db.must("show pipeline");
  c.note("%s", cmd.c_str()); bool ok = w.w.db.exec(cmd);
  if (ok == bad) fail(bad ? "pipeline: accepted although storages repeat, do not exist or a middle one has no conditions" : "pipeline: refused", "%s: %s", cmd.c_str(), w.w.db.err.c_str());
  if (!ok) { if (w.w.db.must("show pipeline") != before) fail("pipeline: changed by a refused command", "%s", cmd.c_str()); w.w.reopen("pipeline"); if (w.w.db.must("show pipeline") != before) fail("pipeline: changed by a refused command after reopen", "%s", cmd.c_str()); }
  else { std::string now = w.w.db.must("show pipeline"); w.w.reopen("pipeline"); if (w.w.db.must("show pipeline") != now) fail("pipeline: lost after reopen", "%s", cmd.c_str()); }
  c.state(c.index + 1); c.exec();
}
static PropReg c13({"C13", "model_checking",
  "17 pipelines (one to three storages in different orders, limits on partitions, events, size, age and combinations) set before or after every sequence of 4 (thorough: 5) actions over writes creating and growing partitions in and out of id order, deletes, refresh, moves between storages, drops, partitions created by hand, time passing, rebalance, background service, checkpoint, pipeline change, close and reopen, crash; with and without a cloud behind the second storage. Each rebalance (command or background) is compared with a reference simulation: storage of each partition, creation times, stored event counts, and the events themselves; a second rebalance and a reopen must change nothing. Every pipeline of up to three storages over four names and four option sets is accepted exactly if its storages exist, differ, and each but the last has a condition.",
  {"values have a fixed size so that the size limit is a number of events with a margin", "size and events limits count events in partition files (not in memory), age counts from the creation of the partition"},
  [](bool th, std::vector<Family>& f) {
    std::vector<int> all; for (int k = 0; k < P_COUNT; k++) all.push_back(k);
    std::vector<int> core = {P_W0, P_W2, P_W3M, P_REFALL, P_CLOCK, P_REB, P_SVC, P_MOVE0, P_KILL, P_DROP1};
    f.push_back({"all-actions", pipes().size() * 2 * ipow(all.size(), th ? 4 : 3), [=](Ctx& c, uint64_t i) { runPipe(c, 0, i, all, th ? 4 : 3); }});
    f.push_back({"core", pipes().size() * 2 * ipow(core.size(), th ? 5 : 4), [=](Ctx& c, uint64_t i) { runPipe(c, 0, i, core, th ? 5 : 4); }});
    for (int cl = 1; cl <= 2; cl++) f.push_back({cl == 1 ? "cloud" : "cloud-keep", pipes().size() * 2 * ipow(all.size(), th ? 3 : 2), [=](Ctx& c, uint64_t i) { runPipe(c, cl, i, all, th ? 3 : 2); }});
    f.push_back({"validation", 3 * 4096, runBad});
  }});

// C04 batches are all or nothing, C14 serial ids, C15 partition ranges
#include "alpha.h"
#include <inttypes.h>
#include <string.h>
#include <algorithm>
static const uint64_t MAXI = UINT64_MAX;

// ------------------------------------------------------------------ C04
static std::vector<Ev> evs() { return { put(1, "n"), put(2, "n", "a"), del(1), del(3), put(3, "n"), put(6, "n"), put(21, "n"), del(6, "zz"), put(9, "") }; }
static void pre_state(World& w, int st) {
  if (st >= 1) w.act(W({put(1, "p"), put(2, "p", "a"), put(6, "p"), put(9, "p")}), "setup");
  if (st == 2 || st == 3) { w.act(C("refresh partitions between 0 and 100"), "setup"); }
  if (st == 3) w.act(W({put(1, "q"), del(6), put(9, "q")}), "setup");
}
static void after_failure(World& w, const std::vector<Ev>& good, const char* what) {
  std::string s = what;
  w.check(s + ": after the failed batch");
  for (auto& k : std::vector<Key>{{1, ""}, {2, "a"}, {3, ""}, {6, ""}, {7, ""}, {20, ""}}) w.check(s + ": seek after the failed batch", &k);
}
static void finish_batch(World& w, const std::vector<Ev>& good, const char* what, int mode) {
  std::string s = what;
  if (mode == 0) { w.act(Kill(), s); w.check(s + ": after a crash"); }
  if (mode == 1) { w.act(C("refresh partitions between 0 and 1000"), s); w.check(s + ": after refresh"); w.reopen(s); w.check(s + ": after reopen"); }
  if (mode == 2) { w.act(W(good), s); w.check(s + ": good batch afterwards"); w.act(Kill(), s); w.check(s + ": after a crash"); }
  w.act(W(good), s); w.check(s + ": good batch at the end"); w.act(C("checkpoint"), s); w.settle(); w.check(s + ": at the end"); w.reopen(s); w.check(s + ": after the last reopen");
}
static void runPoison(Ctx& c, uint64_t i, int n) {
  Elsewhere other;
  auto al = evs(); int pos = i % (n + 1); i /= (n + 1); int kind = i % 2; i /= 2; int st = i % 4; i /= 4; int mode = i % 3; i /= 3;
  World w(L_PLAIN, {"set mm_page_size to 8192"}); w.start(); pre_state(w, st);
  std::vector<Ev> good; for (int k = 0; k < n; k++) { Ev e = al[i % al.size()]; i /= al.size(); if (!e.del) e.val += strf("%d", k); good.push_back(e); }
  std::vector<Ev> bad = good; Ev p = kind == 0 ? put(5, "k", std::string(256, 'k')) : put(pos % 2 ? 2 : 13, std::string(9000, 'B'));
  bad.insert(bad.begin() + pos, p); c.note("poisoned batch %s", show(bad).c_str());
  if (w.db.write(bad)) fail("a batch with an invalid event succeeded", "%s", show(bad).c_str());
  after_failure(w, good, "invalid event"); finish_batch(w, good, "invalid event", mode);
  c.state(hash_model(w.m) + c.index); c.exec(); if (c.index % 3001 == 3) c.sample(c.trail);
}
// memory limit: the batch fails at whatever event needs the page above the limit
static void runLimit(Ctx& c, uint64_t i) {
  Elsewhere other;
  int parts = 1 + i % 4; i /= 4; int cnt = 1 + i % 6; i /= 6; int vs = (int[]){700, 1500, 3000, 3900}[i % 4]; i /= 4; int lim = 1 + i % 5; i /= 5; int st = i % 2;
  World w(L_PLAIN, {"set mm_page_size to 8192", "set mm_limit to true", strf("set mm_limit_wm to %d", lim * 8192), "set mm_limit_behaviour to 'error'", "set mm_cache to 0"});
  w.start(); std::vector<Ev> first = {put(1, "f"), put(2, "f", "a")};
  if (st) { c.note("first write"); if (w.db.write(first)) upd(w.m, first); w.check("memory limit: after the first write"); }
  std::vector<Ev> b; for (int k = 0; k < cnt * parts; k++) b.push_back(put((k % parts) * 4 + k / parts % 4, std::string(vs, 'a' + k % 26))); b.push_back(put(1, "last")); b.push_back(del(2, "a"));
  bool any = false;
  for (int round = 0; round < 4; round++) {
    for (auto& e : b) if (!e.del) e.val[0] = '0' + round;
    c.note("round %d write of %zu events, %d bytes each", round, b.size(), vs);
    if (w.db.write(b)) { upd(w.m, b); c.want("limit: batches accepted"); } else { any = true; c.want("limit: batches refused"); }
    w.check("memory limit: after a batch");
    if (round == 1) { w.db.exec("refresh partitions between 0 and 1000"); w.check("memory limit: after refresh"); }
  }
  (void)any; w.act(Kill(), "memory limit"); w.check("memory limit: after a crash"); w.act(C("refresh partitions between 0 and 1000"), "memory limit"); w.check("memory limit: refresh after the crash"); w.reopen("memory limit"); w.check("memory limit: after reopen");
  c.state(hash_model(w.m) + c.index); c.exec();
}
// rollback across page splits
static void runSplit(Ctx& c, uint64_t i) {
  int fill = 498 + i % 18; i /= 18; int k = (int[]){1, 2, 5, 11, 16}[i % 5]; i /= 5; int where = i % 5; i /= 5; int kind = i % 3;
  World w(L_PLAIN, {"set wal to false", "set interval to 100000", "set mm_page_size to 65536"}); w.start();
  std::vector<Ev> b; for (int j = 0; j < fill; j++) b.push_back(put(10 + 2 * (uint64_t)j, "v")); w.act(W(b), "setup"); 
  std::vector<Ev> bad; for (int j = 0; j < k; j++) { uint64_t base = where == 0 ? 0 : where == 1 ? 11 + 2 * 20 : where == 2 ? 11 + 2 * 253 : where == 3 ? 11 + 2 * (uint64_t)(fill - 4) : 11 + 2 * (uint64_t)fill; uint64_t id = base + 2 * j; if (kind == 0) bad.push_back(put(id, "n")); else if (kind == 1) { bad.push_back(put(id, "n")); bad.push_back(put(id + 1, "r")); } else { bad.push_back(put(id - (id & 1), "r")); bad.push_back(del(id - (id & 1) + 2)); bad.push_back(put(id, "x")); bad.push_back(put(id, "y")); } }
  std::vector<Ev> good = bad; bad.push_back(put(0, "k", std::string(300, 'k')));
  c.note("fill %d then failing batch of %zu at place %d kind %d", fill, bad.size(), where, kind);
  for (int r = 0; r < 3; r++) { if (w.db.write(bad)) fail("a batch with an invalid event succeeded", "-"); w.check("page split: after the failed batch"); }
  for (uint64_t s : {0ull, 9ull, 11ull, 50ull, 51ull, 515ull, 516ull, 517ull, 518ull, 1000ull, 1010ull, 1020ull, 1040ull}) { Key q{s, ""}; w.check("page split: seek after the failed batch", &q); }
  w.act(W(good), "page split"); w.check("page split: after the good batch"); w.act(C("refresh partitions between 0 and 10000000"), "page split"); w.check("page split: after refresh");
  c.state(hash_model(w.m) + c.index); c.exec();
}
// faults inside the write call
static void runFault(Ctx& c, uint64_t i, int n) {
  Elsewhere other;
  auto al = evs(); bool sync = i & 1; i >>= 1; int mode = i % 3; i /= 3; int st = 1 + i % 3; i /= 3; bool crc = i & 1; i >>= 1; uint64_t code = i;
  for (int kind = fs::Fault::ONCE; kind <= fs::Fault::SHORT; kind++) for (uint64_t at = 0;; at++) {
    World w(L_PLAIN, {sync ? "set wal_sync_on_write to true" : "set wal_sync_on_write to false", crc ? "set wal_crc to true" : "set wal_crc to false", "set wal_rotate_wm to 1000000"}); w.start(); pre_state(w, st);
    std::vector<Ev> b; uint64_t x = code; for (int k = 0; k < n; k++) { Ev e = al[x % al.size()]; x /= al.size(); if (!e.del) e.val += strf("%d", k); b.push_back(e); }
    fs::Fault f; f.kind = (fs::Fault::Kind)kind; f.at = at; f.err = at & 1 ? 28 : 5; c.note("fault kind %d at call %" PRIu64 " in write %s", kind, at, show(b).c_str());
    fs::arm(f); bool ok = w.db.write(b); fs::disarm(); bool fired = fs::fault_fired(); c.exec();
    if (!fired) { if (!ok) fail("write failed without a fault", "%s", w.db.err.c_str()); break; }
    c.want("faults in writes");
    Model before = w.m, after = w.m; upd(after, b);
    if (ok) w.m = after;
    w.check("fault in write: right after");
    if (kind == fs::Fault::STICKY && !ok) {
      // the log could not be repaired before the process dies
      if (mode == 0) { fs::Image im = fs::snapshot(); w.db.close(); fs::restore(im); if (!w.db.open()) fail("fault in write: open failed", "%s", w.db.err.c_str()); std::string y1, y2; if (scan_equals(w.db, before, &y1)) w.m = before; else if (scan_equals(w.db, after, &y2)) w.m = after; else fail("fault in write: contents after a crash differ", "%s; %s", y1.c_str(), y2.c_str()); }
    }
    finish_batch(w, b, "fault in write", mode == 0 && kind == fs::Fault::STICKY ? 2 : mode);
    c.state(hash_model(w.m) + c.index * 64 + at);
  }
  if (c.index % 301 == 3) c.sample(c.trail);
}
static PropReg c04({"C04", "model_checking",
  "every batch of 3 events (thorough: 4) over 9 operations spanning several partitions with an invalid event (key too long, value larger than a memory page) at every position, for 4 states of the database and 3 continuations; every combination of batch shape and memory limit that makes a batch run out of memory; failing batches of different shapes around the page split sizes; and every batch of 2 (thorough: 3) events with an error, a short write and a persistent error injected at every file-system call of the write. After each failed batch the contents, seeks, a crash or refresh and restart, and a following batch are compared with the map without the batch.",
  {"visibility of a batch to other threads is explored in C16", "after a persistent error followed at once by a process crash the failed batch may be found in the log as a whole"},
  [](bool th, std::vector<Family>& f) {
    int n = th ? 4 : 3; uint64_t a = evs().size();
    f.push_back({"invalid-event", (uint64_t)(n + 1) * 2 * 4 * 3 * ipow(a, n), [n](Ctx& c, uint64_t i) { runPoison(c, i, n); }});
    f.push_back({"memory-limit", 4 * 6 * 4 * 5 * 2, runLimit});
    f.push_back({"page-split", 18 * 5 * 5 * 3, runSplit});
    int m = th ? 3 : 2;
    f.push_back({"faults", 2 * 3 * 3 * 2 * ipow(a, m), [m](Ctx& c, uint64_t i) { runFault(c, i, m); }});
  }});

// ------------------------------------------------------------------ C14
void serial_families(bool th, std::vector<Family>& f);   // p_conc.cc
// actions: auto writes, explicit writes, deletes, failing batches, drops, maintenance, restarts
struct Serial { World w; uint64_t n = 0; uint64_t high = 0; bool any = false; std::map<std::string, uint64_t> ids; Serial(int lay) : w(lay, {"set serial to true"}) {} };
static void seen(Serial& s, uint64_t id) { if (!s.any || id > s.high) s.high = id; s.any = true; }
static void auto_write(Ctx& c, Serial& s, int cnt, int mix, bool poison, const std::string& sig) {
  std::vector<Ev> b; std::vector<std::string> vals;
  for (int k = 0; k < cnt; k++) { std::string v = strf("auto%" PRIu64, s.n++); vals.push_back(v); b.push_back(put(AUTO, v)); if (mix == 1 && k == 0) b.push_back(put(0, "explicit", "k")); if (mix == 2 && k == 0) b.push_back(put(s.high + 5, "ahead")); }
  if (poison) b.push_back(put(3, "p", std::string(300, 'p')));
  std::vector<monotone_event_t> v(b.size()); for (size_t i = 0; i < b.size(); i++) { memset(&v[i], 0, sizeof v[i]); v[i].id = b[i].id; v[i].value = (void*)b[i].val.data(); v[i].value_size = b[i].val.size(); v[i].key = b[i].key.empty() ? nullptr : (void*)b[i].key.data(); v[i].key_size = b[i].key.size(); }
  c.note("write of %d events without id%s%s", cnt, mix ? " and explicit ones" : "", poison ? ", failing" : "");
  bool ok = s.w.db.write_raw(v); if (ok == poison) fail(sig + (ok ? ": invalid batch accepted" : ": write failed"), "%s", s.w.db.err.c_str());
  // the ids given are found in the database itself
  std::vector<std::pair<Key, std::string>> got; if (!s.w.db.scan(&got)) fail(sig + ": scan failed", "%s", s.w.db.err.c_str());
  if (poison) { std::string d = diff(s.w.m, got); if (!d.empty()) fail(sig + ": failed batch changed the contents", "%s", d.c_str()); return; }
  std::map<std::string, uint64_t> where; for (auto& g : got) where[g.second] = g.first.first;
  for (size_t k = 0; k < b.size(); k++) {
    if (b[k].id != AUTO) { s.w.m[{b[k].id, b[k].key}] = b[k].val; seen(s, b[k].id); continue; }
    auto it = where.find(b[k].val); if (it == where.end()) fail(sig + ": event written without id is missing", "%s", b[k].val.c_str());
    if (s.any && it->second <= s.high) fail(sig + ": assigned id is not greater than all before", "%s got id %" PRIu64 ", highest id before was %" PRIu64, b[k].val.c_str(), it->second, s.high);
    if (v[k].id != it->second) fail(sig + ": id reported to the caller differs", "%" PRIu64 " and %" PRIu64, v[k].id, it->second);
    seen(s, it->second); s.w.m[{it->second, ""}] = b[k].val;
  }
  std::string d = diff(s.w.m, got); if (!d.empty()) fail(sig + ": contents differ", "%s", d.c_str());
}
static const int NSER = 16;
static void serial_act(Ctx& c, Serial& s, int a) {
  World& w = s.w; const char* sig = "serial";
  switch (a) {
    case 0: auto_write(c, s, 1, 0, false, sig); break;
    case 1: auto_write(c, s, 6, 0, false, sig); break;
    case 2: auto_write(c, s, 2, 1, false, sig); break;
    case 3: auto_write(c, s, 2, 2, false, sig); break;
    case 4: auto_write(c, s, 3, 0, true, sig); break;
    case 5: { uint64_t id = s.high + 9; w.act(W({put(id, "far")}), sig); seen(s, id); break; }
    case 6: { std::vector<Ev> b = {put(2, "low")}; w.act(W(b), sig); seen(s, 2); break; }
    case 7: { if (!w.m.empty()) { uint64_t id = w.m.rbegin()->first.first; w.act(W({del(id)}), sig); } break; }
    case 8: { auto ps = partitions(w.db); if (!ps.empty()) w.act(D(ps.back().min), sig); break; }
    case 9: w.act(D(0), sig); break;
    case 10: w.act(C("refresh partitions between 0 and 100000"), sig); w.settle(); break;
    case 11: w.act(C("debug 'wal_create'"), sig); w.act(C("debug 'wal_gc'"), sig); break;
    case 12: w.act(Reopen(), sig); break;
    case 13: w.act(Kill(), sig); break;
    case 14: { w.db.must(strf("create partition %" PRIu64 " %" PRIu64, s.high + 20, s.high + 22)); c.note("create partition ahead"); break; }
    case 15: w.act(FailRefresh(s.high, 1 + s.n % 3), sig); break;
  }
  if (a == 12 || a == 13) { // ids of events which are gone for good may be given again after a restart
    s.any = false; s.high = 0; for (auto& e : w.m) seen(s, e.first.first); }
}
static void runSerial(Ctx& c, uint64_t i, int lay, int len) {
  Elsewhere other;
  Serial s(lay); s.w.start(); uint64_t x = i;
  for (int k = 0; k < len; k++) { serial_act(c, s, x % NSER); x /= NSER; s.w.check("serial"); }
  auto_write(c, s, 2, 0, false, "serial, at the end"); s.w.act(Kill(), "serial"); auto_write(c, s, 2, 0, false, "serial, after a crash"); s.w.settle(); s.w.reopen("serial"); auto_write(c, s, 2, 0, false, "serial, after reopen");
  c.state(hash_model(s.w.m) + i * 4 + lay); c.exec(); if (i % 5003 == 3) c.sample(c.trail);
}
// ends of the id space
static void runSerialEnd(Ctx& c, uint64_t i) {
  uint64_t start = MAXI - (i % 8); bool rest = (i / 8) & 1; World w(L_PLAIN, {rest ? "set serial to false" : "set serial to true"}); w.start();
  std::vector<Ev> first = {put(3, "low"), put(0, "zero")}; if (start != MAXI || rest) first.push_back(put(start, "high"));
  w.act(W(first), "end of ids");
  if (rest) { w.db.close(); std::string cf = fs::read_file("/mcfs/db/config.json"); size_t q = cf.find("\"serial\": false"); if (q == std::string::npos) fail("harness: serial not found in the config", "%s", cf.c_str()); cf.replace(q, 15, "\"serial\": true"); fs::write_file("/mcfs/db/config.json", cf); if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str()); }
  for (int k = 0; k < 10; k++) {
    monotone_event_t e; memset(&e, 0, sizeof e); e.id = MAXI; std::string v = strf("a%d", k); e.value = (void*)v.data(); e.value_size = v.size(); std::vector<monotone_event_t> b{e};
    if (w.db.write_raw(b)) { if (w.m.count({b[0].id, ""})) fail("automatic id overwrote an event", "%" PRIu64, b[0].id); w.m[{b[0].id, ""}] = v; }
    w.check("end of ids");
  }
  c.state(i + 1); c.exec();
}
static PropReg c14({"C14", "model_checking",
  "every sequence of 4 (thorough: 5) actions over writes without ids (alone, in batches, mixed with explicit ids below and above), failing batches, explicit ids, deletes of the last event, drops of the first and last partition, refresh, log trimming, refresh which fails, restart, crash and creation of an empty partition ahead, per storage layout; and every schedule of up to three concurrent clients with at most 2 (thorough: 3) deviations (as in C16) in 12 scenarios of automatic ids, explicit ids and maintenance; each assigned id is read back and must be greater than every id assigned or present before (after a restart: present), the caller is told the same id, and the scan equals a map in which nothing was overwritten.",
  {"after a restart ids of events that were deleted or dropped for good may be used again", "SET ssn, which sets the counter by hand, is not used"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 5 : 4;
    f.push_back({"plain", ipow(NSER, len), [len](Ctx& c, uint64_t i) { runSerial(c, i, L_PLAIN, len); }});
    f.push_back({"cloud", ipow(NSER, len - 1), [len](Ctx& c, uint64_t i) { runSerial(c, i, L_CLOUD, len - 1); }});
    f.push_back({"end-of-ids", 16, runSerialEnd});
    serial_families(th, f);
  }});

// ------------------------------------------------------------------ C15
struct Rng { uint64_t min, max; };
struct Pt { World w; std::vector<Rng> parts; uint64_t iv; Pt(int lay, uint64_t interval) : w(lay, {strf("set interval to %" PRIu64, interval)}), iv(interval) {} };
static void model_fill(std::vector<Rng>& ps, uint64_t a, uint64_t b) {   // every gap of [a,b] becomes a partition
  std::vector<Rng> add; uint64_t lo = a; bool end = false;
  for (auto& p : ps) { if (p.max < lo) continue; if (p.min > b) break; if (p.min > lo) add.push_back({lo, p.min - 1}); if (p.max == MAXI) { end = true; break; } lo = p.max + 1; if (lo > b) { end = true; break; } }
  if (!end && lo <= b) add.push_back({lo, b});
  for (auto& x : add) ps.push_back(x);
  std::sort(ps.begin(), ps.end(), [](const Rng& x, const Rng& y) { return x.min < y.min; });
}
static void model_touch(Pt& p, uint64_t id) {
  for (auto& r : p.parts) if (id >= r.min && id <= r.max) return;
  uint64_t a = id - id % p.iv, b = a + p.iv - 1; if (b < a) b = MAXI; model_fill(p.parts, a, b);
}
static std::string show_parts(const std::vector<Rng>& v) { std::string s; for (auto& r : v) s += strf("[%" PRIu64 "-%" PRIu64 "] ", r.min, r.max); return s; }
static void check_parts(Pt& p, bool exact, const std::string& sig) {
  auto ps = partitions(p.w.db); std::vector<Rng> got; for (auto& x : ps) got.push_back({x.min, x.max});
  for (size_t k = 0; k < got.size(); k++) { if (got[k].min > got[k].max) fail(sig + ": invalid range", "%s", show_parts(got).c_str()); if (k && got[k].min <= got[k - 1].max) fail(sig + ": partitions overlap", "%s", show_parts(got).c_str()); }
  for (auto& e : p.w.m) { bool in = false; for (auto& r : got) if (e.first.first >= r.min && e.first.first <= r.max) in = true; if (!in) fail(sig + ": event outside of all partitions", "%s in %s", show_key(e.first).c_str(), show_parts(got).c_str()); }
  if (exact) { bool same = got.size() == p.parts.size(); for (size_t k = 0; same && k < got.size(); k++) same = got[k].min == p.parts[k].min && got[k].max == p.parts[k].max; if (!same) fail(sig + ": partition ranges differ", "expected %s got %s", show_parts(p.parts).c_str(), show_parts(got).c_str()); }
  // the number of events stored in each partition
  for (auto& x : ps) { uint64_t n = 0; for (auto& e : p.w.m) if (e.first.first >= x.min && e.first.first <= x.max) n++; if (!x.in_memory && x.events != n) fail(sig + ": events in the wrong partition", "partition %" PRIu64 " has %" PRIu64 " events, expected %" PRIu64, x.min, x.events, n); }
  p.parts = got;
}
struct PAct { int k; uint64_t a, b; };
static std::vector<PAct> pacts(int set) {
  if (set == 0) return { {0, 0, 0}, {0, 3, 0}, {0, 9, 0}, {0, 14, 0}, {0, 25, 0}, {1, 0, 5}, {1, 7, 7}, {1, 4, 30}, {2, 0, 0}, {2, 14, 0}, {3, 3, 0}, {3, 10, 0}, {4, 0, 0}, {5, 0, 0}, {6, 0, 0}, {7, 2, 11}, {8, 0, 1}, {8, 10, 3} };
  return { {0, 0, 0}, {0, 1ull << 63, 0}, {0, MAXI - 9, 0}, {0, MAXI - 1, 0}, {0, MAXI, 0}, {1, MAXI - 5, MAXI}, {1, (1ull << 63) - 1, 1ull << 63}, {2, MAXI - 1, 0}, {2, 1ull << 63, 0}, {3, 10, 0}, {3, 1ull << 62, 0}, {3, (1ull << 63) + 5, 0}, {3, MAXI, 0}, {4, 0, 0}, {5, 0, 0}, {8, 1ull << 63, 2} };
}
static void runParts(Ctx& c, uint64_t i, int set, int len) {
  Elsewhere other;
  static const uint64_t iv0[] = {10, 3, 1}, iv1[] = {10, 1ull << 62, (1ull << 63) + 5};
  uint64_t iv = (set ? iv1 : iv0)[i % 3]; i /= 3; Pt p(L_PLAIN, iv); p.w.start(); auto al = pacts(set); c.note("interval %" PRIu64, iv); int n = 0;
  for (int k = 0; k < len; k++) {
    PAct a = al[i % al.size()]; i /= al.size(); bool exact = true; n++;
    switch (a.k) {
      case 0: p.w.act(W({put(a.a, "v")}), "write"); model_touch(p, a.a); break;
      case 1: p.w.act(C(strf("create partition %" PRIu64 " %" PRIu64, a.a, a.b)), "create partition"); model_fill(p.parts, a.a, a.b); break;
      case 2: { p.w.act(D(a.a), "drop"); for (size_t q = 0; q < p.parts.size(); q++) if (a.a >= p.parts[q].min && a.a <= p.parts[q].max) { p.parts.erase(p.parts.begin() + q); break; } break; }
      case 3: p.w.act(C(strf("set interval to %" PRIu64, a.a)), "set interval"); p.iv = a.a; break;
      case 4: p.w.act(C(strf("refresh partitions between 0 and %" PRIu64, MAXI)), "refresh"); break;
      case 5: p.w.act(Reopen(), "reopen"); p.iv = iv; exact = false; break;
      case 6: p.w.act(Kill(), "crash"); p.iv = iv; exact = false; break;
      case 8: p.w.act(FailRefresh(a.a, a.b), "failing refresh"); break;
      case 7: { p.w.act(DR(a.a, a.b), "drop range"); for (size_t q = 0; q < p.parts.size();) if (p.parts[q].min >= a.a && p.parts[q].max <= a.b) p.parts.erase(p.parts.begin() + q); else q++; break; }
    }
    if (a.k == 5 || a.k == 6) { J j = parse_json(p.w.db.must("show interval")); p.iv = j.u; }
    p.w.check("partitions"); check_parts(p, exact, "after " + std::string((const char*[]){"write", "create partition", "drop", "set interval", "refresh", "reopen", "crash", "drop range", "failing refresh"}[a.k]));
  }
  p.w.act(C(strf("refresh partitions between 0 and %" PRIu64, MAXI)), "final refresh"); check_parts(p, true, "after final refresh"); std::vector<Rng> full; for (auto& x : partitions(p.w.db)) if (x.in_storage && x.events) full.push_back({x.min, x.max});
  p.w.reopen("final reopen"); p.w.check("final reopen"); check_parts(p, false, "after final reopen");
  // partitions which have events keep their range; empty ones may come and go with the replay of older log records
  for (auto& r : full) { bool in = false; for (auto& g : p.parts) if (g.min == r.min && g.max == r.max) in = true; if (!in) fail("after final reopen: range of a stored partition changed", "[%" PRIu64 "-%" PRIu64 "] in %s", r.min, r.max, show_parts(p.parts).c_str()); }

  c.state(hash_model(p.w.m) + c.index * 2 + set); c.exec(); if (c.index % 5003 == 3) c.sample(c.trail);
}
// batches that touch several partitions of every kind
static void runPartsBatch(Ctx& c, uint64_t i) {
  static const uint64_t iv[] = {10, 7, 1, 1ull << 40}; uint64_t ids[] = {0, 5, 9, 10, 13, 20, 27, 1ull << 40}; uint64_t interval = iv[i % 4]; i /= 4; int pre = i % 4; i /= 4;
  Pt p(L_PLAIN, interval); p.w.start();
  if (pre == 1) { p.w.act(C("create partition 3 12"), "setup"); model_fill(p.parts, 3, 12); } if (pre == 2) { p.w.act(C("create partition 0 4"), "setup"); model_fill(p.parts, 0, 4); p.w.act(C("create partition 19 21"), "setup"); model_fill(p.parts, 19, 21); } if (pre == 3) { p.w.act(W({put(11, "s")}), "setup"); model_touch(p, 11); }
  std::vector<Ev> b; for (int k = 0; k < 4; k++) { uint64_t id = ids[i % 8]; i /= 8; b.push_back(put(id, strf("v%d", k))); }
  p.w.act(W(b), "batch"); for (auto& e : b) model_touch(p, e.id); p.w.check("batch"); check_parts(p, true, "after a batch");
  p.w.act(Kill(), "crash"); p.w.check("crash"); check_parts(p, false, "after a crash"); c.state(hash_model(p.w.m) + c.index * 2); c.exec();
}
static PropReg c15({"C15", "model_checking",
  "every sequence of 4 (thorough: 5) actions over writes, creation of partitions by hand, drops, interval changes, refresh (also failing), restart and crash, for three intervals each in a small id range and at the ends of the id space; and every batch of 4 writes over 8 ids for 4 prepared partition sets and 4 intervals. After each action the partition list is compared with a model of the ranges (aligned intervals that fill gaps), must be disjoint and cover every event, and stored event counts must match the ranges.",
  {"after a restart only disjointness, coverage and contents are required of partitions which had no file (their ranges are re-created with the default interval)"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 5 : 4;
    f.push_back({"small", 3 * ipow(pacts(0).size(), len), [len](Ctx& c, uint64_t i) { runParts(c, i, 0, len); }});
    f.push_back({"extreme", 3 * ipow(pacts(1).size(), len), [len](Ctx& c, uint64_t i) { runParts(c, i, 1, len); }});
    f.push_back({"batches", 4 * 4 * 4096, runPartsBatch});
  }});

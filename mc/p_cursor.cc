// C18 an open cursor while its thread writes
#include "alpha.h"
#include <inttypes.h>
#include <string.h>
#include <algorithm>

struct Cur {
  Db& db; Model& m; monotone_cursor_t* c = nullptr; std::string sig; Ctx& ctx;
  Model start; std::set<Key> deleted; std::map<Key, std::set<std::string>> hist; bool at = false, any = false; Key pos, from; bool has_from = false; std::string val; bool touched = false;
  Cur(Ctx& x, Db& d, Model& mm, const std::string& s) : db(d), m(mm), sig(s), ctx(x) {}
  ~Cur() { if (c) monotone_free(c); }
  void open(const Key* f) {
    monotone_event_t e; memset(&e, 0, sizeof e); if (f) { e.id = f->first; e.key = (void*)f->second.data(); e.key_size = f->second.size(); from = *f; has_from = true; }
    c = monotone_cursor(db.h, nullptr, f ? &e : nullptr); if (!c) fail(sig + ": cursor open failed", "%s", monotone_error(db.h));
    start = m; for (auto& i : m) hist[i.first].insert(i.second);
    landed(read());
  }
  bool read(Key* k = nullptr, std::string* v = nullptr) {
    monotone_event_t e; memset(&e, 0, sizeof e); int rc = monotone_read(c, &e); ctx.op(); if (rc < 0) fail(sig + ": read failed", "%s", monotone_error(db.h));
    if (rc == 0) return false;
    rk = Key(e.id, std::string((char*)e.key, e.key_size)); rv = std::string((char*)e.value, e.value_size); if (k) *k = rk; if (v) *v = rv; return true;
  }
  Key rk; std::string rv;
  void landed(bool ok) {
    // everything between the previous position and the new one which was there all the time is missing
    for (auto& i : start) {
      if (any ? !(i.first > pos) : (has_from && i.first < from)) continue;
      if (ok && !(i.first < rk)) break;
      if (!deleted.count(i.first)) fail(sig + ": an existing event was missed", "missed %s, cursor %s", show_key(i.first).c_str(), ok ? show_key(rk).c_str() : "at the end");
    }
    if (!ok) { at = false; any = true; ended = true; return; }
    if (any && !(rk > pos)) fail(sig + ": event out of order or twice", "%s after %s", show_key(rk).c_str(), show_key(pos).c_str());
    if (!any && has_from && rk < from) fail(sig + ": event before the sought one", "%s", show_key(rk).c_str());
    auto h = hist.find(rk); if (h == hist.end() || !h->second.count(rv)) fail(sig + ": event which never existed", "%s = %s", show_key(rk).c_str(), quote(rv).c_str());
    at = any = true; pos = rk; val = rv; touched = false;
  }
  bool ended = false;
  void next() {
    int rc = monotone_next(c); ctx.op(); if (rc < 0) fail(sig + ": next failed", "%s", monotone_error(db.h));
    bool r = read(); if (ended) { if (r) fail(sig + ": event after the end", "%s", show_key(rk).c_str()); return; }
    if (rc > 0 && !r) fail(sig + ": next succeeded but nothing can be read", "after %s", show_key(pos).c_str()); if (rc == 0 && r) fail(sig + ": next ended but an event can be read", "%s", show_key(rk).c_str());
    landed(r);
  }
  void drain() { for (int i = 0; i < 5000 && !ended; i++) next(); if (!ended) fail(sig + ": cursor does not end", " "); next(); }
  // a write (successful or not) happened
  void wrote(const std::vector<Ev>& b, bool ok) {
    if (ok) for (auto& e : b) { Key k(e.id, e.key); if (e.del) deleted.insert(k); else hist[k].insert(e.val); if (at && k == pos) touched = true; }
    if (!c) return;
    bool r = read();
    if (ended || !at) { if (r) fail(sig + ": event after the end", "%s", show_key(rk).c_str()); return; }
    if (!r) { if (!(touched && deleted.count(pos))) fail(sig + ": current event lost by a write", "was at %s", show_key(pos).c_str()); return; }
    if (rk != pos) fail(sig + ": current event changed by a write", "was at %s, now %s", show_key(pos).c_str(), show_key(rk).c_str());
    if (!touched ? rv != val : !hist[pos].count(rv)) fail(sig + ": value of the current event changed by a write", "%s: %s, was %s", show_key(pos).c_str(), quote(rv).c_str(), quote(val).c_str());
  }
};
// initial states of one event
enum { S_NO, S_MEM, S_FILE, S_FILE_MEM, S_FILE_MEMDEL, S_N, S_PREV = S_N, S_PREV_MEM, S_FILE_PREVDEL, S_FILE_PREV_MEM, S_FILE_PREVDEL_MEM, S_N2 };
struct CurFam { std::vector<Key> ids; const char* interval; int states; int len; const char* region; bool newer; };
static std::vector<std::pair<std::vector<Ev>, bool>> curOps(const CurFam& f, int v) {   // batch, expected to fail
  std::vector<std::pair<std::vector<Ev>, bool>> o;
  for (auto& k : f.ids) { o.push_back({{put(k.first, strf("n%d", v), k.second)}, false}); o.push_back({{del(k.first, k.second)}, false}); }
  if (f.newer) { std::vector<Ev> b = {put(f.ids[0].first, "r", f.ids[0].second), del(f.ids[1].first, f.ids[1].second), put(f.ids[2].first, "r", f.ids[2].second), Ev{f.ids[0].first, std::string(256, 'x'), "", false}}; o.push_back({b, true});
    std::vector<Ev> g = {put(f.ids[1].first, strf("g%d", v), f.ids[1].second), del(f.ids[0].first, f.ids[0].second), put(f.ids.back().first, strf("g%d", v), f.ids.back().second)}; o.push_back({g, false}); }
  return o;
}
static void setup(Db& db, Model& m, const CurFam& f, uint64_t x) {
  std::vector<Ev> file, prev, mem;
  for (auto& k : f.ids) {
    int s = x % f.states; x /= f.states; auto p = [&](const char* v) { return put(k.first, v, k.second); };
    if (s == S_FILE || s == S_FILE_MEM || s == S_FILE_MEMDEL || s == S_FILE_PREVDEL || s == S_FILE_PREV_MEM || s == S_FILE_PREVDEL_MEM) file.push_back(p("f"));
    if (s == S_PREV || s == S_PREV_MEM || s == S_FILE_PREV_MEM) prev.push_back(p("p")); if (s == S_FILE_PREVDEL || s == S_FILE_PREVDEL_MEM) prev.push_back(del(k.first, k.second));
    if (s == S_MEM || s == S_FILE_MEM || s == S_PREV_MEM || s == S_FILE_PREV_MEM || s == S_FILE_PREVDEL_MEM) mem.push_back(p("m")); if (s == S_FILE_MEMDEL) mem.push_back(del(k.first, k.second));
  }
  if (!file.empty()) { db.must_write(file); upd(m, file); db.must("refresh partitions between 0 and 10000"); }
  if (!prev.empty()) { db.must_write(prev); upd(m, prev); db.must("set error_refresh_1 to true"); for (auto& p : partitions(db)) db.exec(strf("refresh partition %" PRIu64, p.min)); db.must("set error_refresh_1 to false"); }
  if (!mem.empty()) { db.must_write(mem); upd(m, mem); }
}
// one case: an initial state and a start position; all operation sequences
static void runCur(Ctx& c, const CurFam& f, uint64_t i) {
  size_t starts = f.ids.size() + 1; uint64_t st = i % starts; i /= starts;
  fs::reset(); static std::map<std::string, fs::Image> base; std::string bk = std::string(f.interval) + f.region;
  { auto b = base.find(bk); if (b == base.end()) { Db db; db.pre.push_back(strf("set interval to %s", f.interval)); db.pre.push_back("set wal to false"); if (!db.open()) fail("open failed", "%s", db.err.c_str()); db.must(strf("alter storage main set (region_size %s)", f.region)); db.close(); b = base.emplace(bk, fs::snapshot()).first; } fs::restore(b->second); }
  Db db; db.pre.push_back(strf("set interval to %s", f.interval)); db.pre.push_back("set wal to false"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  size_t nops = 1 + curOps(f, 0).size(); uint64_t total = ipow(nops, f.len); size_t base_trail = c.trail.size();
  for (uint64_t s = 0; s < total; s++) {
    if (f.len > 1 && s / (total / nops) == 0 && s) continue;   // a final "next" adds nothing
    c.trail.resize(base_trail); Model m; setup(db, m, f, i); c.note("start: %s, cursor at %zu", show(m).c_str(), (size_t)st);
    { Cur cu(c, db, m, "cursor"); Key k; if (st) k = f.ids[st - 1]; cu.open(st ? &k : nullptr);
      uint64_t x = s; for (int n = 0; n < f.len; n++) {
        uint64_t o = x % nops; x /= nops; if (o == 0) { c.note("next"); cu.next(); continue; }
        auto op = curOps(f, n)[o - 1]; c.note("write %s%s", show(op.first).c_str(), op.second ? " (fails)" : "");
        bool ok = db.write(op.first); if (ok == op.second) fail("cursor: write result", "%s", db.err.c_str()); if (ok) upd(m, op.first); cu.wrote(op.first, ok);
      }
      c.note("drain"); cu.drain(); }
    check_scan(db, m, "cursor: contents afterwards differ"); c.state(hash_model(m) * 131 + s * 64 + st + i * 1000003); c.exec();
    db.must("drop partitions between 0 and 100000"); if (partitions(db).size()) fail("harness: drop", " ");
  }
}
static uint64_t curCount(const CurFam& f) { return ipow(f.states, f.ids.size()) * (f.ids.size() + 1); }
// pages: a full page splits under the cursor
static void runPage(Ctx& c, uint64_t i, int fill, int two) {
  // case: cursor position; all insert positions
  fs::reset(); Db db; db.pre.push_back("set interval to 100000"); db.pre.push_back("set wal to false"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  uint64_t pos = i; std::vector<Ev> b; for (int k = 0; k < fill; k++) b.push_back(put(10 + k * 4, "x"));
  for (int at = -1; at < fill; at++) {
    if (two ? at % (c.thorough ? 37 : 149) != 0 : !c.thorough && at > 1 && at < fill - 2 && abs(at - fill / 2) > 4 && abs(at - (int)pos) > 1 && at % 16 != 0) continue;
    Model m; db.must_write(b); upd(m, b); c.trail.clear(); c.note("%d events, cursor at event %lu, insert after event %d", fill, (unsigned long)pos, at);
    { Cur cu(c, db, m, "page split"); Key k(10 + pos * 4, ""); cu.open(&k);
      for (int n = 0; n < (two ? 6 : 2); n++) { std::vector<Ev> w = {put(10 + at * 4 + 2 + (n & 1) - (n >> 1 & 1) * 3 + (n == 5 ? 4 * 200 : 0), "new")}; db.must_write(w); upd(m, w); cu.wrote(w, true); if (two && n == 2) cu.next(); }
      if (two) { std::vector<Ev> w = {del(10 + ((pos + 1) % fill) * 4)}; db.must_write(w); upd(m, w); cu.wrote(w, true); std::vector<Ev> bad = {put(10 + pos * 4 + 1, "r"), put(11, "r"), Ev{1, std::string(256, 'x'), "", false}}; if (db.write(bad)) fail("page split: bad batch accepted", " "); cu.wrote(bad, false); }
      cu.drain(); }
    check_scan(db, m, "page split: contents differ"); c.exec(); c.state(i * 1000 + at + 1 + (two ? 1000000 : 0) + fill * 10000000ull);
    db.must("drop partition 0");
  }
}
static PropReg c18({"C18", "model_checking",
  "every initial state of four events (each absent, in memory, in the file, in the file and replaced or deleted in memory; of three events also in a second memtable left by a failed refresh), in one and in several partitions and regions, every position of a cursor, and then every sequence of 3 (thorough: 4) operations of the same thread out of next, put and delete of each event, a batch, and a batch which fails and is rolled back; then the cursor is advanced to its end. After every step the current event, order, values and completeness are checked. Pages: for pages with 510 to 512 events every cursor position and every insert position around the split.",
  {"one client thread"},
  [](bool th, std::vector<Family>& f) {
    auto add = [&](const char* n, CurFam k) { f.push_back({n, curCount(k), [k](Ctx& c, uint64_t i) { runCur(c, k, i); }}); };
    int len = th ? 4 : 3;
    add("one-partition", {{{0, ""}, {1, ""}, {2, ""}, {3, ""}}, "100", S_N, len, "1000", false});
    add("keys", {{{0, "a"}, {0, "b"}, {1, ""}}, "100", S_N, len, "30", true});
    add("three-partitions", {{{0, ""}, {1, ""}, {2, ""}, {5, ""}}, "2", S_N, th ? 3 : 2, "20", true});
    add("after-failed-refresh", {{{0, ""}, {1, ""}, {2, ""}}, "100", S_N2, th ? 4 : 2, "30", true});
    add("failed-refresh-partitions", {{{1, ""}, {2, ""}, {3, ""}}, "2", S_N2, th ? 3 : 2, "30", true});
    for (int fill : {511, 512, 513}) f.push_back({strf("page-%d", fill), (uint64_t)fill, [fill](Ctx& c, uint64_t i) { runPage(c, i, fill, 0); }});
    f.push_back({"page-many", 512, [](Ctx& c, uint64_t i) { runPage(c, i, 512, 1); }});
    f.push_back({"pages-many", 1100, [](Ctx& c, uint64_t i) { runPage(c, i, 1100, 1); }});
  }});

// C20 memory and descriptors are bounded and always returned
#include "alpha.h"
#include <inttypes.h>
#include <string.h>

struct MC { uint64_t page; int limit; int cache; };   // limit: index into limits(), cache: index
static uint64_t limit_of(const MC& c) { uint64_t P = c.page; uint64_t v[] = {0, 1, P - 16, P - 15, 2 * P - 32, 3 * P, 5 * P, 1000 * P}; return v[c.limit]; }
static uint64_t cache_of(const MC& c) { uint64_t P = c.page; uint64_t v[] = {0, P, 3 * P + 7, 1ull << 33}; return v[c.cache]; }
struct Mem { int64_t pages, used, free, size, hits; };
static Mem mem(World& w) { J j = parse_json(w.db.must("show memory")); return {j["pages"].i, j["pages_used"].i, j["pages_free"].i, j["page_size"].i, j["limit_hits"].i}; }
static const char* conf_name(const MC& c) { static std::string s; s = strf("page %" PRIu64 ", limit %" PRIu64 ", cache %" PRIu64, c.page, limit_of(c), cache_of(c)); return s.c_str(); }
static int64_t heaps(World& w) { int64_t n = 0; for (auto& p : partitions(w.db)) n += p.raw["size_heap"].i; return n; }

// everything which must hold between two calls
static Mem settled(World& w, const MC& c, const std::string& sig) {
  Mem m = mem(w); std::string d = strf("pages %" PRId64 " used %" PRId64 " free %" PRId64 " page size %" PRId64 ", mapped %" PRIu64 " bytes, partitions use %" PRId64 " bytes", m.pages, m.used, m.free, m.size, fs::mmap_live, heaps(w));
  if (m.used < 0 || m.free < 0 || m.pages != m.used + m.free) fail(sig + ": page counters", "%s", d.c_str());
  if ((uint64_t)m.size != c.page) fail(sig + ": page size is not the configured one", "%s", d.c_str());
  if (fs::mmap_live != (uint64_t)m.pages * m.size) fail(sig + ": pages mapped and pages reported differ", "%s", d.c_str());
  if (heaps(w) != m.used * m.size) fail(sig + ": pages in use are not those of the partitions", "%s", d.c_str());
  if ((uint64_t)m.free * m.size > cache_of(c)) fail(sig + ": more unused pages kept than mm_cache allows", "%s, cache %" PRIu64, d.c_str(), cache_of(c));
  return m;
}
static std::vector<Act> memActs(uint64_t P) {
  std::string big(P * 3 / 8, 'B'), over(P, 'O'); std::vector<Ev> fill; for (int i = 0; i < 520; i++) fill.push_back(put(2, "", strf("%03d", i)));
  std::vector<Act> v = {W({put(1, "s")}), W({put(5, "s"), del(1)}), W({put(0, "a"), put(4, "b"), put(8, "c"), put(1, "s")}), W({put(3, big)}), W({put(2, big), put(6, big), put(7, big)}), W({put(1, "x"), put(5, over)}), W(fill),
    C("refresh partition if exists 0"), C("refresh partitions between 0 and 100"), D(0), DR(4, 11), Svc(), C("debug 'memory_gc'"), Reopen(), Kill(), FailRefresh(0, 1), FailRefresh(4, 3)};
  return v;
}
// pages one call may need at most: every event its own page plus a page of references for each
static int64_t need(const Act& a, uint64_t P) { int64_t n = 0; std::set<uint64_t> parts; uint64_t bytes = 0; for (auto& e : a.batch) { parts.insert(e.id / 4); bytes += 64 + e.key.size() + e.val.size(); } (void)P; n = 2 * (int64_t)(a.batch.size() < 100 ? a.batch.size() : bytes / (P / 2) + parts.size() + 2); return n; }
static void memAct(World& w, const MC& c, const Act& a, Mem& before) {
  std::string sig = "memory";
  if (a.k == Act::WRITE) {
    Act t = w.tag(a, w.step++); w.allowed = {w.m}; if (g_ctx) g_ctx->note("%s", a.name().c_str());
    bool ok = w.db.write(t.batch); bool over = false; for (auto& e : a.batch) if (e.val.size() + 64 > c.page - 16) over = true;
    if (!ok) { g_ctx->note("  %s", w.db.err.c_str()); g_ctx->want("failed writes"); } else upd(w.m, t.batch);
    Mem m = settled(w, c, ok ? "memory: write" : "memory: failed write"); int64_t nd = need(a, c.page); uint64_t L = limit_of(c);
    if (ok && over) fail("memory: an event larger than a page was accepted", "%s", a.name().c_str());
    if (!ok && !over && (uint64_t)(before.used + nd) * c.page <= L) fail("memory: write failed below the limit", "%s, %s: used %" PRId64 " pages, %s", conf_name(c), a.name().c_str(), before.used, w.db.err.c_str());
    int64_t cap = (int64_t)(L / c.page) + 1 + nd; if (m.used > before.used && m.used > cap) fail("memory: limit exceeded", "%s, %s: used %" PRId64 " pages", conf_name(c), a.name().c_str(), m.used);
    w.check(ok ? "memory: write" : "memory: failed write"); before = m;
    // a failed write gives its error at every attempt and does not use more memory each time
    if (!ok) { for (int i = 0; i < 3; i++) if (w.db.write(t.batch)) fail("memory: the same write failed and then succeeded", "%s", a.name().c_str()); Mem n = settled(w, c, "memory: failed writes"); if (n.used > cap && n.used > m.used) fail("memory: limit exceeded by repeated failures", "%s, %s: used %" PRId64 " pages", conf_name(c), a.name().c_str(), n.used); before = n; }
  } else {
    w.act(a, sig); Mem m = settled(w, c, "memory: " + a.name());
    if (m.used > before.used && a.k != Act::REOPEN && a.k != Act::KILL) fail("memory: " + a.name() + " increased the memory in use", "%" PRId64 " -> %" PRId64, before.used, m.used);
    w.check(sig + ": " + a.name()); before = m;
  }
  g_ctx->state((uint64_t)before.used * 1000003 + before.pages * 31 + hash_model(w.m));
}
static std::vector<Act> restartActs(uint64_t P) { std::string big(P * 3 / 8, 'B'); return {W({put(1, big)}), W({put(5, big), put(9, "s")}), C("refresh partition if exists 0"), C("refresh partitions between 4 and 11"), D(0), DR(4, 11), Kill()}; }
static void runMem(Ctx& cx, const MC& c, uint64_t i, int len, bool wal, bool restart = false) {
  HeapWatch hw;
  auto al = restart ? restartActs(c.page) : memActs(c.page);
  uint64_t L = limit_of(c);
  World w(L_PLAIN); w.db.pre.push_back(strf("set mm_page_size to %" PRIu64, c.page)); w.db.pre.push_back("set mm_limit to true"); w.db.pre.push_back("set mm_limit_behaviour to 'error'"); w.db.pre.push_back(strf("set mm_limit_wm to %" PRIu64, L)); w.db.pre.push_back(strf("set mm_cache to %" PRIu64, cache_of(c))); if (!wal) w.db.pre.push_back("set wal to false");
  w.start(); cx.exec(); cx.note("%s%s", conf_name(c), wal ? "" : ", no log");
  Mem before = settled(w, c, "memory: start"); if (before.used) fail("memory: pages in use by an empty database", "%" PRId64, before.used);
  for (int k = 0; k < len; k++) { const Act& a = al[i % al.size()]; i /= al.size(); if (!wal && (a.k == Act::REOPEN || a.k == Act::KILL)) return; memAct(w, c, a, before); }
  if (restart) memAct(w, c, Kill(), before);
  // all pages come back
  w.act(C("refresh partitions between 0 and 100"), "memory"); w.settle(); w.check("memory: refresh of all");
  Mem m = settled(w, c, "memory: refresh of all"); if (m.used) fail("memory: pages in use after everything was refreshed", "%" PRId64 " pages: %s", m.used, w.db.must("show partitions").c_str());
  for (int r = 0; r < 2; r++) {
    std::vector<Ev> b = {put(1, "last")}; Act a = W(b); bool fits = L > 0; Act t = w.tag(a, w.step++); bool ok = w.db.write(t.batch); if (ok) upd(w.m, t.batch);
    if (!ok && L >= 2 * c.page) fail("memory: write fails after a refresh freed the memory", "%s: %s", conf_name(c), w.db.err.c_str()); if (ok && !fits) fail("memory: write with a limit of zero", " "); settled(w, c, "memory: write after the refresh");
    if (r == 0) { w.act(DR(0, 100), "memory"); Mem z = settled(w, c, "memory: drop of all"); if (z.used) fail("memory: pages in use after everything was dropped", "%" PRId64, z.used); }
  }
  w.act(C("debug 'memory_gc'"), "memory"); Mem z = settled(w, c, "memory: gc"); if (z.free) fail("memory: unused pages kept by memory_gc", "%" PRId64, z.free);
  w.db.close(); if (fs::mmap_live) fail("memory: pages not returned on close", "%" PRIu64 " bytes", fs::mmap_live); check_no_handles("memory");
  if (cx.index % 4099 == 5) cx.sample(cx.trail);
}
// a page cannot be mapped
static void runNoMem(Ctx& cx, const MC& c, uint64_t i, int len) {
  HeapWatch hw;
  auto al = memActs(c.page); uint64_t pre = i; std::vector<Act> wr; for (auto& a : al) if (a.k == Act::WRITE) wr.push_back(a); Act last = wr[pre % wr.size()]; pre /= wr.size();
  for (int kind : {fs::Fault::ONCE, fs::Fault::STICKY}) for (uint64_t at = 0;; at++) {
    World w(L_PLAIN); w.db.pre.push_back(strf("set mm_page_size to %" PRIu64, c.page)); w.db.pre.push_back(strf("set mm_cache to %" PRIu64, cache_of(c))); w.db.pre.push_back("set mm_limit to true"); w.db.pre.push_back("set mm_limit_behaviour to 'error'"); w.db.pre.push_back(strf("set mm_limit_wm to %" PRIu64, limit_of(c)));
    w.start(); cx.exec(); cx.trail.clear(); cx.note("%s", conf_name(c)); Mem before = settled(w, c, "no memory: start"); uint64_t x = pre;
    for (int k = 0; k < len; k++) { memAct(w, c, al[x % al.size()], before); x /= al.size(); }
    Act t = w.tag(last, w.step++); cx.note("%s, page allocation %" PRIu64 " fails%s", last.name().c_str(), at, kind == fs::Fault::STICKY ? " and all later ones" : "");
    fs::fault_mask(1u << fs::MMAP); fs::Fault f; f.kind = (fs::Fault::Kind)kind; f.at = at; f.err = 12; f.sticky_writes_only = false; fs::arm(f); bool ok = w.db.write(t.batch); bool hit = fs::fault_fired(); fs::disarm(); fs::fault_mask(~0u);
    if (ok) upd(w.m, t.batch); if (ok && hit) fail("no memory: write succeeded without its memory", "%s", last.name().c_str());
    settled(w, c, "no memory: after the write"); w.check("no memory: after the write");
    bool over = false; for (auto& e : last.batch) if (e.val.size() + 64 > c.page - 16) over = true;
    if (hit) { cx.want("failed page allocations"); bool again = w.db.write(t.batch); if (again) upd(w.m, t.batch); if (!again && !over && limit_of(c) > 100 * c.page) fail("no memory: write fails after the shortage", "%s", w.db.err.c_str()); settled(w, c, "no memory: write after the shortage"); w.check("no memory: write after the shortage"); }
    w.act(C("refresh partitions between 0 and 100"), "no memory"); w.settle(); Mem m = settled(w, c, "no memory: refresh of all"); if (m.used) fail("no memory: pages in use after everything was refreshed", "%" PRId64, m.used);
    w.act(Reopen(), "no memory"); w.check("no memory: reopen"); w.db.close(); if (fs::mmap_live) fail("no memory: pages not returned on close", "%" PRIu64 " bytes", fs::mmap_live); check_no_handles("no memory");
    if (!hit) break;
  }
}
// descriptors: the directory lock, the current log file and one per partition file
static void files_ok(World& w, const std::string& sig) {
  auto ps = partitions(w.db); std::string root = std::string(fs::ROOT) + "/db"; size_t dir = 0, log = 0, part = 0, want = 0; std::set<std::string> seen; std::string all; std::string lastwal;
  for (auto& f : fs::listing()) if (f.first.compare(0, root.size() + 5, root + "/wal/") == 0) lastwal = f.first;
  for (auto& p : ps) if (p.in_storage) want++;
  for (auto& f : fs::open_files()) {
    all += f.second.empty() ? f.first + " (removed) " : f.second + " "; if (f.second.empty()) fail(sig + ": removed file left open", "%s", f.first.c_str());
    if (!seen.insert(f.second).second) fail(sig + ": file open twice", "%s", f.second.c_str());
    if (f.second == root) dir++; else if (f.second.compare(0, root.size() + 5, root + "/wal/") == 0) { log++; if (f.second != lastwal) fail(sig + ": old log file left open", "%s", f.second.c_str()); } else part++;
  }
  std::string d = strf("%zu partition files, open: %s", want, all.c_str());
  if (dir != 1) fail(sig + ": directory lock", "%s", d.c_str()); if (log != 1) fail(sig + ": log files open", "%s", d.c_str());
  if (part != want) fail(sig + ": open partition files", "%s", d.c_str());
  if ((size_t)fs::open_handles() != fs::open_files().size()) fail(sig + ": directory stream left open", "%s", fs::handle_list().c_str());
  int64_t h = 0; for (auto& p : ps) h += p.raw["size_heap"].i; J j = parse_json(w.db.must("show memory")); if (h != j["pages_used"].i * j["page_size"].i || fs::mmap_live != (uint64_t)j["pages"].i * j["page_size"].i) fail(sig + ": memory pages", "partitions use %" PRId64 " bytes, %" PRId64 " pages used, %" PRIu64 " bytes mapped", h, j["pages_used"].i, fs::mmap_live);
}
static std::vector<Act> fdActs(int lay) { auto v = writes(); v.resize(2); for (auto& a : maint(lay)) v.push_back(a); for (auto& a : {D(0), DR(0, 7), Svc(), C("debug 'wal_create'"), C("debug 'wal_gc'"), C("checkpoint"), Reopen(), FailRefresh(0, 1), FailRefresh(0, 2), FailRefresh(4, 3)}) v.push_back(a); if (lay == L_CLOUD || lay == L_CLOUD_KEEP || lay == L_MIXED) { v.push_back(CF("drop partition if exists 0 on storage")); v.push_back(CF("drop partition if exists 0 on cloud")); } for (auto& a : alters(lay)) v.push_back(a); return v; }
static void runFd(Ctx& cx, int lay, uint64_t i, int len, bool faults) {
  HeapWatch hw;
  auto al = fdActs(lay); Act last = al[i % al.size()]; if (faults) i /= al.size();
  std::vector<int> kinds = faults ? std::vector<int>{fs::Fault::ONCE, fs::Fault::STICKY} : std::vector<int>{fs::Fault::NONE};
  for (int kind : kinds) for (uint64_t at = 0;; at++) {
    World w(lay); w.start(); cx.exec(); cx.trail.clear(); cx.note("layout %s", layout_name[lay]); uint64_t x = i; files_ok(w, "descriptors: start"); bool drop1 = false;
    for (int k = 0; k < len; k++) { const Act& a = al[x % al.size()]; x /= al.size(); if (a.k == Act::CMD && a.cmd.find(" on storage") != std::string::npos) { bool both = false; for (auto& p : partitions(w.db)) if (p.min == 0 && p.in_storage && p.in_cloud) both = true; if (!both) continue; } if (a.k == Act::CMD && a.cmd.find(" on cloud") != std::string::npos) { bool both = false; for (auto& p : partitions(w.db)) if (p.min == 0 && p.in_storage && p.in_cloud) both = true; if (!both) continue; } w.act(a, "descriptors"); files_ok(w, "descriptors: " + a.name()); }
    if (!faults) { w.check("descriptors: contents"); w.db.close(); check_no_handles("descriptors: close"); if (fs::mmap_live) fail("descriptors: memory pages not returned on close", " "); break; }
    cx.note("%s with an error at call %" PRIu64 "%s", last.name().c_str(), at, kind == fs::Fault::STICKY ? " and all later ones" : "");
    fs::Fault f; f.kind = (fs::Fault::Kind)kind; f.at = at; fs::arm(f); bool ok = true, open = true;
    switch (last.k) { case Act::WRITE: ok = w.db.write(w.tag(last, 40).batch); break; case Act::SVC: for (int n = 0; n < 6; n++) if (!w.db.exec("service")) ok = false; break; case Act::REOPEN: w.db.close(); if (fs::open_handles()) { fs::disarm(); fail("descriptors: close after an error", "%s: %s", fs::fault_where().c_str(), fs::handle_list().c_str()); } ok = open = w.db.open(); break; case Act::FAILREF: ok = w.db.exec(strf("refresh partition if exists %" PRIu64, last.a)); break; default: ok = w.db.exec(last.cmd); }
    bool hit = fs::fault_fired(); std::string where = fs::fault_where(); fs::disarm(); (void)drop1; if (!hit) { if (!open) fail("descriptors: open failed", "%s", w.db.err.c_str()); w.db.close(); break; }
    cx.want("faults injected"); cx.note("  %s -> %s", where.c_str(), ok ? "ok" : w.db.err.c_str());
    std::string sig = strf("descriptors: error in %s", last.k == Act::WRITE ? "write" : last.name().c_str());
    if (open) files_ok(w, sig);
    w.db.close(); check_no_handles(sig); if (fs::mmap_live) fail(sig + ": memory pages not returned on close", "%" PRIu64, fs::mmap_live); sched::reset_objects();
    if (!w.db.open()) fail(sig + ": open after the error", "%s", w.db.err.c_str()); files_ok(w, sig + ", reopen"); w.db.close(); check_no_handles(sig);
  }
}
static std::vector<MC> mcs(bool th) { std::vector<MC> v; for (uint64_t p : {8192ull, 16384ull}) for (int l = 0; l < 8; l++) for (int c = 0; c < 4; c++) { if (!th && p == 16384 && (l % 2 || c % 2)) continue; v.push_back({p, l, c}); } return v; }
void command_memory(bool, std::vector<Family>&);
static PropReg c20({"C20", "model_checking",
  "every sequence of 3 (thorough 4) of 17 actions (small, large, batch, too large and many-event writes, refreshes, drops, service, memory_gc, reopen, crash, failing refreshes) for 56 (thorough 64) combinations of page size, limit (zero, one byte, around one and two pages, more) and cache size, in error mode, with and without the log, and every sequence of 5 (thorough 7) of writes, refreshes, drops and crashes of two partitions filling the limit; every page allocation of a write failing once or from then on; and for each storage layout every sequence of 3 (thorough 4) maintenance, write, drop and configuration actions, and every action after every sequence of 1 (thorough 2) with an error, once or lasting, at each of its calls. After each step: mapped memory, reported pages and the sizes of the partitions agree, the limit and the cache size are not exceeded, writes below the limit succeed and writes above fail without effect, nothing is in use after everything is refreshed or dropped, exactly the directory lock, the current log and one file per stored partition are open, and nothing is left after close; every template command of C21, every pair of them, every pair of storage options and every third (thorough: every) single edit of a template, and every configuration command with an error at each of its calls: no memory allocated by the code may be left when the database is closed (checked at every close of all families)",
  {"clouds are the built-in mock provider and the S3 provider with a modelled server"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 4 : 3; size_t na = memActs(8192).size(); auto v = mcs(th);
    f.push_back({"limit", v.size() * ipow(na, len), [v, len, na](Ctx& c, uint64_t i) { runMem(c, v[i % v.size()], i / v.size(), len, true); }});
    f.push_back({"limit, no log", v.size() * ipow(na, len - 1), [v, len, na](Ctx& c, uint64_t i) { runMem(c, v[i % v.size()], i / v.size(), len - 1, false); }});
    std::vector<MC> rs = {{8192, 1, 0}, {8192, 4, 3}, {8192, 5, 1}}; if (th) rs.push_back({8192, 6, 2}); int l3 = th ? 7 : 5; size_t nr = restartActs(8192).size();
    f.push_back({"limit, restarts", rs.size() * ipow(nr, l3), [rs, l3](Ctx& c, uint64_t i) { runMem(c, rs[i % rs.size()], i / rs.size(), l3, true, true); }});
    std::vector<MC> nm = {{8192, 7, 0}, {8192, 7, 3}, {8192, 6, 1}, {16384, 5, 0}}; int l2 = th ? 2 : 1;
    f.push_back({"pages which cannot be mapped", nm.size() * 7 * ipow(na, l2), [nm, l2](Ctx& c, uint64_t i) { runNoMem(c, nm[i % nm.size()], i / nm.size(), l2); }});
    for (int lay = 0; lay < L_LAYOUTS; lay++) { int n = th ? 4 : 3; size_t k = fdActs(lay).size();
      f.push_back({strf("descriptors %s", layout_name[lay]), ipow(k, n), [lay, n](Ctx& c, uint64_t i) { runFd(c, lay, i, n, false); }});
      int m = th ? 2 : 1; f.push_back({strf("descriptors with errors %s", layout_name[lay]), k * ipow(k, m), [lay, m](Ctx& c, uint64_t i) { runFd(c, lay, i, m, true); }}); }
    command_memory(th, f);
  }});

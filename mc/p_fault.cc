// C10 an I/O or cloud error fails one operation and damages nothing
#include "alpha.h"
#include <inttypes.h>
#include <string.h>

static const char* kind_name[] = {"none", "error", "error until repaired", "short write then error", "partial write"};
// contents which may be present after a failed drop: each affected partition is there or not
static std::vector<Model> drop_subsets(const std::vector<Part>& ps, const Model& m, const Act& a) {
  std::vector<std::pair<uint64_t, uint64_t>> r;
  for (auto& p : ps) if (a.range ? (p.min >= a.a && p.max <= a.b) : (a.a >= p.min && a.a <= p.max)) r.push_back({p.min, p.max});
  std::vector<Model> out;
  for (uint32_t mask = 0; mask < 1u << r.size(); mask++) { Model x = m; for (size_t k = 0; k < r.size(); k++) if (mask >> k & 1) for (auto i = x.begin(); i != x.end();) { if (i->first.first >= r[k].first && i->first.first <= r[k].second) i = x.erase(i); else ++i; } out.push_back(x); }
  return out;
}
static void match(World& w, std::vector<Model>& allowed, const std::string& sig) {
  std::vector<std::pair<Key, std::string>> got; if (!w.db.scan(&got)) fail(sig + ": read failed", "%s", w.db.err.c_str());
  std::string d; for (auto& m : allowed) { std::string x = diff(m, got); if (x.empty()) { w.m = m; w.allowed = {m}; return; } d += x + "; "; }
  fail(sig + ": contents differ", "%s", d.c_str());
}
// after the fault is gone everything queued or postponed can be completed
static void drain(World& w, const std::string& sig) {
  w.act(C("checkpoint"), sig); w.settle(); w.check(sig + ", checkpoint and service afterwards");
  for (auto& p : partitions(w.db)) if (p.in_memory) fail(sig + ": checkpoint does not flush a partition any more", "partition %" PRIu64 " %s", p.min, w.db.must("show partitions debug").c_str());
}
struct FaultFam { int lay; std::vector<std::string> extra; std::vector<Act> pre; int len; std::vector<Act> last; bool full; };
static void run_action(World& w, const Act& a, bool& ok) {
  switch (a.k) {
    case Act::WRITE: ok = w.db.write(w.tag(a, 40).batch); break;
    case Act::SVC: ok = true; for (int i = 0; i < 12; i++) if (!w.db.exec("service")) ok = false; break;
    case Act::STEP: ok = w.db.exec("service"); break;
    case Act::SCAN: { std::vector<std::pair<Key, std::string>> g; ok = w.db.scan(&g); if (ok) { std::string d = diff(w.m, g); if (!d.empty()) fail("fault in a read: wrong contents returned", "%s", d.c_str()); } break; }
    case Act::REOPEN: w.db.close(); if (fs::open_handles()) fail("fault: files left open after close", "%s", fs::handle_list().c_str()); ok = w.db.open(); if (!ok) w.db.close(); if (!ok && fs::open_handles()) fail("fault: files left open after a failed open", "%s", fs::handle_list().c_str()); break;
    default: ok = w.db.exec(a.cmd);
  }
}
static void runFault(Ctx& c, const FaultFam& f, uint64_t i) {
  Elsewhere other;
  Act last = f.last[i % f.last.size()]; i /= f.last.size(); int st = i % 2; i /= 2;
  for (int kind = fs::Fault::ONCE; kind <= fs::Fault::PARTIAL; kind++) for (uint64_t at = 0;; at++) {
    size_t tr = c.trail.size();
    World w(f.lay, f.extra); w.start(); uint64_t x = i;
    if (st) { w.act(writes()[0], "setup"); w.act(C("refresh partitions between 0 and 100"), "setup"); w.act(writes()[1], "setup"); }
    for (int k = 0; k < f.len; k++) { w.act(f.pre[x % f.pre.size()], "setup"); x /= f.pre.size(); }
    if (last.cmd.find("drop partition if exists 0 on ") == 0) { bool both = false; for (auto& p : partitions(w.db)) if (p.min == 0 && p.in_cloud && p.in_storage) both = true; if (!both) { c.exec(); return; } }
    bool noupload = false; if (last.k == Act::CMD && (last.cmd.compare(0, 7, "upload ") == 0 || last.cmd.compare(0, 5, "move ") == 0)) for (auto& p : partitions(w.db)) if (!p.in_storage && !p.in_cloud) noupload = true;
    auto ps = partitions(w.db);
    c.note("layout %s: %s, fault: %s at call %" PRIu64, layout_name[f.lay], last.name().c_str(), kind_name[kind], at);
    fs::Fault ft; ft.kind = (fs::Fault::Kind)kind; ft.at = at; ft.err = at & 1 ? 28 : 5; fs::arm(ft);
    bool ok = true; run_action(w, last, ok);
    fs::disarm(); bool fired = fs::fault_fired(); std::string where = fs::fault_where(); c.exec();
    if (!fired) { if (!ok && !noupload && !last.may_fail) fail("failed without a fault: " + last.name(), "%s", w.db.err.c_str()); break; }
    if (where == "not a write") { c.trail.resize(tr); continue; }
    c.want("faults injected"); c.note("  %s -> %s", where.c_str(), ok ? "ok" : w.db.err.c_str());
    std::string sig = std::string("fault (") + kind_name[kind] + ") in " + (last.k == Act::WRITE ? "write" : last.name());
    if (kind == fs::Fault::PARTIAL && !ok && !noupload && !last.may_fail) fail(sig + ": a partial write is not completed", "%s: %s", where.c_str(), w.db.err.c_str());
    if (last.k == Act::REOPEN && !ok) { if (!w.db.open()) fail(sig + ": open failed after the fault", "%s after %s", w.db.err.c_str(), where.c_str()); }
    std::vector<Model> now = {w.m}, crash = {w.m}; bool drop = last.k == Act::DROP;
    if (last.k == Act::WRITE) { Model n = w.m; upd(n, w.tag(last, 40).batch); if (ok) now = crash = {n}; else if (kind == fs::Fault::STICKY) crash.push_back(n); }
    if (drop) { auto v = drop_subsets(ps, w.m, last); if (ok) now = crash = {v.back()}; else now = crash = v; }
    match(w, now, sig + ", right after");
    if (drop && !ok) crash = drop_subsets(ps, w.m, last);
    if (last.k == Act::WRITE && kind == fs::Fault::STICKY && !ok) ; else if (!drop || ok) crash = {w.m};
    c.state(hash_model(w.m) * 131 + (c.index * 4096 + at) * 8 + kind);
    for (uint64_t id = 0; id <= 6; id += 3) { Key k{id, ""}; w.check(sig + ", seek right after", &k); }
    fs::Image im = fs::snapshot(); Act again = last; if (noupload) again.may_fail = true;
    // in the same process: a failed drop may be left alone and the partitions written again
    if (drop && !ok && f.full) {
      Model before = w.m; std::vector<Ev> nb = {put(1, "new"), put(5, "new"), put(7, "new")}; Act na = W(nb);
      w.act(na, sig + ", write afterwards"); w.check(sig + ", write afterwards"); Model add; upd(add, w.tag(na, w.step - 1).batch);
      fs::Image im2 = fs::snapshot();
      std::vector<Model> al; for (auto& m : drop_subsets(ps, before, last)) { Model y = m; for (auto& e : add) y[e.first] = e.second; al.push_back(y); }
      w.db.close(); fs::restore(im2); sched::reset_objects(); World v(f.lay, f.extra); v.step = 60; if (!v.db.open()) fail(sig + ": open after a crash failed", "%s", v.db.err.c_str());
      match(v, al, sig + ", write and crash"); auto vm = v.m; v.act(C("refresh partitions between 0 and 100"), sig); v.settle(); v.check(sig + ", refresh later"); v.act(Kill(), sig); v.check(sig + ", second crash later"); v.db.close();
    } else {
      if (last.k == Act::WRITE || drop || last.k == Act::CMD || last.k == Act::SVC || last.k == Act::STEP) { w.act(again, sig + ", repeated"); w.check(sig + ", repeated"); }
      w.act(W({put(1, "after"), put(6, "after"), del(2, "a")}), sig + ", write afterwards"); w.check(sig + ", write afterwards");
      drain(w, sig);
      standard_after(w, w.m, sig, nullptr); w.db.close(); check_no_handles(sig);
    }
    // the process dies right after the failure
    if (f.full || kind != fs::Fault::PARTIAL) {
      c.note("  and crash"); fs::restore(im); sched::reset_objects(); World v(f.lay, f.extra); v.step = 60; if (!v.db.open()) fail(sig + ": open after a crash failed", "%s", v.db.err.c_str());
      match(v, crash, sig + ", crash right after"); standard_after(v, v.m, sig + ", crash", last.k == Act::WRITE ? nullptr : &again); v.db.close(); check_no_handles(sig);
    }
    if (!c.verbose) c.trail.resize(tr);
  }
  if (c.index % 97 == 3) c.sample(c.trail);
}
static std::vector<Act> preF(int lay) { auto v = writes(); v.resize(2); for (auto& a : maint(lay)) v.push_back(a); v.push_back(Svc()); v.push_back(C("debug 'wal_create'")); return v; }
static std::vector<Act> lastF(int lay) {
  auto v = maint(lay); v.push_back(writes()[1]); for (auto& a : {Svc(), C("debug 'wal_create'"), C("debug 'wal_gc'"), C("checkpoint"), Reopen(), Scan(), D(0), DR(0, 7)}) v.push_back(a);
  if (lay == L_CLOUD || lay == L_CLOUD_KEEP || lay == L_MIXED) { v.push_back(C("drop partition if exists 0 on storage")); v.push_back(C("drop partition if exists 0 on cloud")); }
  for (auto& a : alters(lay)) v.push_back(a);
  return v;
}
static PropReg c10({"C10", "model_checking",
  "for each storage layout, every sequence of 1 (plain layout: 2; thorough: 2 and 3) preparing actions from an empty and from a populated database, then one action (write, refresh, move, upload, download, drop of a partition, of a range and of one copy, service, log rotation and gc, checkpoint, configuration change, close and open, scan) during which, at every file-system or cloud call: the call fails once; it and all later modifying calls fail; a write is cut short and the next one fails; a write is only partial. After each: contents and seeks in the running process, the action repeated, a write, checkpoint with service (every partition must get flushed), refresh, log trimming, reopen, no leftover files or handles; and from the same moment a crash, recovery and the same continuation.",
  {"clouds are the built-in mock provider and the S3 provider with a modelled server", "after a persistent failure of a log write followed at once by a crash the failed batch may be present as a whole"},
  [](bool th, std::vector<Family>& f) {
    for (int lay = 0; lay < L_LAYOUTS; lay++) { int len = th ? (lay == L_PLAIN ? 3 : 2) : (lay == L_PLAIN ? 2 : 1);
      FaultFam k{lay, {}, preF(lay), len, lastF(lay), true};
      f.push_back({layout_name[lay], k.last.size() * 2 * ipow(k.pre.size(), len), [k](Ctx& c, uint64_t i) { runFault(c, k, i); }}); }
    FaultFam k{L_PLAIN, {"set wal_crc to true", "set wal_sync_on_write to true", "set wal_rotate_wm to 1"}, preF(L_PLAIN), 1, lastF(L_PLAIN), true};
    f.push_back({"log-options", k.last.size() * 2 * ipow(k.pre.size(), 1), [k](Ctx& c, uint64_t i) { runFault(c, k, i); }});
  }});

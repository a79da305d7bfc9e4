// C05 crash of acknowledged writes, C06 power loss, C07 interrupted maintenance, C08 drops
#include "alpha.h"
#include <inttypes.h>
#include <string.h>

struct Setup { const char* name; int lay; std::vector<std::string> extra; };
static void run_prefix(World& w, const std::vector<Act>& al, uint64_t& x, int len, const std::string& sig) {
  for (int k = 0; k < len; k++) { w.act(al[x % al.size()], sig); x /= al.size(); }
}
struct CrashFam {
  const char* prop; Setup s; std::vector<Act> pre; int len; std::vector<Act> last; int depth; bool power; bool repeat;
  std::function<void(World&)> opened;
};
static uint64_t fam_count(const CrashFam& f) { return ipow(f.pre.size(), f.len) * f.last.size(); }
static void run_crash(Ctx& c, const CrashFam& f, uint64_t i) {
  World w(f.s.lay, f.s.extra); w.start(); uint64_t x = i;
  Act last = f.last[x % f.last.size()]; x /= f.last.size();
  c.note("layout %s (%s)", layout_name[f.s.lay], f.s.name);
  // the last action is only worth crashing if something was written before
  run_prefix(w, f.pre, x, f.len, "before the crash");
  if (last.k == Act::CMD && last.cmd == "drop partition if exists 0 on storage") { bool both = false; for (auto& p : partitions(w.db)) if (p.min == 0 && p.in_cloud && p.in_storage) both = true; if (!both) { c.exec(); return; } }
  std::vector<Cap> caps; c.note("== crash in: %s", last.name().c_str());
  capture(w, true, f.power, caps, [&] { w.act(last, "interrupted action"); });
  Model final_model = w.m;
  w.db.close();
  Crash k; k.lay = f.s.lay; k.extra = f.s.extra; k.depth = f.depth; k.power = f.power; k.opened = f.opened; k.salt = (uint64_t)(last.k) * 131 + std::hash<std::string>()(last.cmd + f.s.name);
  k.sig = f.power ? "power loss" : "crash";
  Act again = last; bool rep = f.repeat && (last.k == Act::CMD || last.k == Act::DROP);
  k.after = [&](World& r, const Model& m) { standard_after(r, m, k.sig, rep ? &again : nullptr); };
  if (c.index % 977 == 5) c.sample(c.trail);
  explore(c, k, caps, f.depth);
}
static void add(std::vector<Family>& out, const CrashFam& f) {
  std::string n = std::string(f.s.name);
  out.push_back({n, fam_count(f), [f](Ctx& c, uint64_t i) { run_crash(c, f, i); }});
}
static const Setup S_plain = {"plain", L_PLAIN, {}}, S_crc = {"log-crc", L_PLAIN, {"set wal_crc to true"}}, S_rot = {"log-rotation", L_PLAIN, {"set wal_rotate_wm to 1"}},
  S_multi = {"multi", L_MULTI, {}}, S_cloud = {"cloud", L_CLOUD, {}}, S_keep = {"cloud-keep", L_CLOUD_KEEP, {}}, S_pipe = {"pipeline", L_PIPE, {}}, S_mixed = {"mixed", L_MIXED, {}};
static Setup sync_of(Setup s) { s.extra.push_back("set wal_sync_on_write to true"); return s; }

static std::vector<Act> preW() { auto v = writes(); for (auto& a : {Svc(), C("debug 'wal_create'"), C("debug 'wal_gc'"), Kill(), C("refresh partitions between 0 and 100"), C("refresh partition if exists 0"), C("checkpoint"), D(0), FailRefresh(0, 1), FailRefresh(0, 2)}) v.push_back(a); return v; }
static std::vector<Act> lastW() { auto v = writes(); for (auto& a : {C("debug 'wal_create'"), C("debug 'wal_gc'"), Reopen(), Step(), Svc(), C("refresh partition if exists 0"), FailRefresh(0, 1), FailRefresh(0, 3)}) v.push_back(a); return v; }
// ---- creation of the database
static void run_create(Ctx& c, uint64_t i, bool power) {
  World w(L_PLAIN, i & 1 ? std::vector<std::string>{"set wal_sync_on_write to true", "set wal_crc to true"} : std::vector<std::string>{"set wal_sync_on_write to true"});
  fs::reset(); fs::clock_frozen = true; std::vector<Cap> caps; w.allowed = {Model()};
  capture(w, true, power, caps, [&] { if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str()); w.act(writes()[0], "first write"); w.reopen("first reopen"); });
  w.db.close(); Crash k; k.lay = L_PLAIN; k.extra = w.extra; k.depth = 3; k.power = power; k.sig = "crash during creation"; k.salt = 99 + i;
  k.after = [&](World& r, const Model& m) { standard_after(r, m, k.sig, nullptr); };
  explore(c, k, caps, 3);
}
static PropReg c05({"C05", "model_checking",
  "every sequence of 3 (thorough: 4) actions over writes, deletes, refresh, checkpoint, service, log rotation and gc, drop and crash, where the process dies at every file-system call of the last action and after every leading part of each of its writes; every distinct resulting file-system image is recovered (and the process dies again at every call of that recovery, to depth 2, thorough 3) and must contain the acknowledged events and all or none of the batch in flight; afterwards the database is written, refreshed, trimmed and reopened. A state is a distinct (image, allowed contents) pair.",
  {"process death: completed calls are kept, the interrupted write keeps any of the explored leading parts", "log enabled"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 3 : 2; int depth = th ? 3 : 2;
    f.push_back({"create", 2, [](Ctx& c, uint64_t i) { run_create(c, i, false); }});
    for (auto& s : {S_plain, S_crc, S_rot}) add(f, {"C05", s, preW(), len, lastW(), depth, false, true, nullptr});
    add(f, {"C05", S_mixed, preW(), th ? 2 : 1, lastW(), depth, false, true, nullptr});
    std::vector<Act> rt = writes(); rt.resize(2); for (auto& a : {FailRefresh(0, 1), FailRefresh(0, 2), FailRefresh(0, 3), C("refresh partition if exists 0"), C("debug 'wal_create'"), C("debug 'wal_gc'")}) rt.push_back(a);
    add(f, {"C05", {"retry", L_PLAIN, {}}, rt, th ? 5 : 4, {writes()[0], C("refresh partition if exists 0"), C("refresh partitions between 0 and 100"), C("debug 'wal_gc'"), FailRefresh(0, 1), FailRefresh(0, 3), Svc()}, th ? 2 : 1, false, true, nullptr});
    auto pl = preW(); pl.resize(7); 
    auto lw = writes();
    add(f, {"C05", {"plain-deep", L_PLAIN, {}}, pl, th ? 4 : 3, lw, 1, false, true, nullptr});
  }});

static std::vector<Act> preM(int lay) { auto v = writes(); v.resize(2); for (int st : {1, 2, 3}) v.push_back(FailRefresh(0, st)); for (auto& a : maint(lay)) v.push_back(a); v.push_back(Svc()); v.push_back(C("debug 'wal_create'")); return v; }
static std::vector<Act> lastM(int lay) { auto v = maint(lay); v.push_back(Svc()); v.push_back(C("debug 'wal_gc'")); v.push_back(Step()); v.push_back(Reopen()); if (lay == L_CLOUD_KEEP || lay == L_CLOUD || lay == L_MIXED) v.push_back(C("drop partition if exists 0 on storage")); return v; }
static void add_maint(std::vector<Family>& f, const Setup& s, int len, int depth, bool power) {
  CrashFam k{"C07", s, preM(s.lay), len, lastM(s.lay), depth, power, true, nullptr}; add(f, k);
}
static PropReg c07({"C07", "model_checking",
  "every sequence of 2 (thorough: 3) actions over writes, refresh, move, upload, download, service and log rotation, followed by one maintenance action during which the process dies at every file-system and cloud call (and after every leading part of each write), for each storage layout; every distinct image is recovered (dying again at every call of the recovery, depth 2) and must hold exactly the same events; then the operation is repeated, and the database is written, refreshed, trimmed and reopened and no leftover file may remain.",
  {"clouds are the built-in mock provider and the S3 provider with a modelled server, both with objects in the modelled file system"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 3 : 2;
    for (auto& s : {S_plain, S_multi, S_cloud, S_keep, S_pipe, S_mixed}) add_maint(f, s, len, 2, false);
  }});

// ---- drops
static std::vector<Act> preD(int lay) { auto v = writes(); for (auto& a : {C("refresh partitions between 0 and 100"), Svc(), Kill(), C("debug 'wal_create'")}) v.push_back(a); if (lay == L_MULTI) v.push_back(C("move partition if exists 0 into s1")); v.push_back(D(0)); return v; }
static std::vector<Act> lastD() { return {D(0), D(5), DR(0, 7), DR(4, 1000), DR(2, 11)}; }
static void no_files_of_dropped(World& w, bool cloud_objects = true) {
  // every partition file belongs to an existing partition
  auto ps = partitions(w.db);
  for (auto& f : fs::listing()) {
    size_t sl = f.first.rfind('/'); std::string n = f.first.substr(sl + 1); if (n.size() < 20 || n.find_first_not_of("0123456789") < 20) continue;
    if (f.first.find("/wal/") != std::string::npos) continue;
    // a crash between the removal of the cloud index file and of the cloud object leaves an unreferenced object
    if (!cloud_objects && (f.first.find("/mock/") != std::string::npos || f.first.find("/s3/") != std::string::npos)) continue;
    uint64_t id = strtoull(n.c_str(), nullptr, 10); bool ok = false; for (auto& p : ps) if (p.min == id) ok = true;
    if (!ok) fail("file of a dropped partition remains", "%s", f.first.c_str());
  }
}
static void run_drop(Ctx& c, int lay, uint64_t i, int len) {
  // no crash: model after drop, files freed, writes into the range survive
  auto al = cat(preD(lay), lastD()); World w(lay); w.start(); uint64_t x = i;
  for (int k = 0; k < len; k++) { Act a = al[x % al.size()]; x /= al.size(); w.act(a, "drops"); w.check("after " + std::string(a.k == Act::DROP ? "drop" : a.k == Act::WRITE ? "write" : "maintenance")); if (a.k == Act::DROP) no_files_of_dropped(w); }
  w.act(W({put(0, "n"), put(5, "n"), put(9, "n"), put(2, "n", "a")}), "drops"); w.check("after writing into dropped ranges");
  w.act(Kill(), "drops"); w.check("after crash"); w.settle(); w.check("after service");
  w.act(C("refresh partitions between 0 and 1000"), "drops"); w.check("after refresh"); w.reopen("drops"); w.check("after reopen"); 
  c.state(hash_model(w.m) * 31 + i * 8 + lay); c.exec(); if (i % 3001 == 7) c.sample(c.trail);
}
// drop of the only copy of a partition (on storage or on cloud): its stored events are gone
static void run_only(Ctx& c, uint64_t i) {
  bool cloud = i & 1, kill = i & 2, gc = i & 4, newer = i & 8;
  World w(cloud ? L_CLOUD : L_PLAIN); w.start(); w.act(W({put(1, "a"), put(2, "b"), put(15, "c")}), "only copy"); w.act(C("refresh partitions between 0 and 100"), "only copy");
  if (gc) { w.act(C("debug 'wal_create'"), "only copy"); w.act(C("debug 'wal_gc'"), "only copy"); } if (newer) w.act(W({put(0, "d")}), "only copy");
  w.db.must(cloud ? "drop partition 0 on cloud" : "drop partition 0 on storage"); Model back = w.m; w.m.erase(Key{1, ""}); w.m.erase(Key{2, ""}); w.check("after drop of the only copy");
  w.act(kill ? Kill() : Reopen(), "only copy"); std::vector<std::pair<Key, std::string>> got; if (!w.db.scan(&got)) fail("scan", "%s", w.db.err.c_str());
  if (to_model(got) == back) fail("events of a partition whose only copy was dropped with ON STORAGE or ON CLOUD come back after a restart while the log still has them", "%zu events", got.size());
  w.check("after restart"); c.exec(); c.state(i);
}
static PropReg c08({"C08", "model_checking",
  "every sequence of 4 (thorough: 5) actions over writes, refresh, move, service, crash, log rotation and drops of single partitions and ranges, per storage layout, compared after each action with a reference map from which exactly the dropped partitions are removed, with a check that no file of a dropped partition remains; and every sequence of 2 (thorough: 3) actions followed by a drop during which the process dies at every file-system call (recovery interrupted again to depth 2): afterwards each partition is entirely present or entirely absent, the drop can be repeated and later writes into the range survive.",
  {"range commands select the partitions which lie entirely within the range"},
  [](bool th, std::vector<Family>& f) {
    for (int lay : {L_PLAIN, L_MULTI, L_CLOUD, L_CLOUD_KEEP}) { int len = th ? 5 : lay == L_PLAIN ? 4 : 3; f.push_back({std::string("drops-") + layout_name[lay], ipow(preD(lay).size() + lastD().size(), len), [lay, len](Ctx& c, uint64_t i) { run_drop(c, lay, i, len); }}); }
    f.push_back({"only copy", 16, run_only});
    for (auto& s : {S_plain, S_multi, S_cloud, S_keep}) add(f, {"C08", s, preD(s.lay), th || s.lay == L_PLAIN ? 3 : 2, lastD(), 2, false, true, [](World& w) { no_files_of_dropped(w, false); }});
  }});

static PropReg c06({"C06", "model_checking",
  "the workloads of C05, C07 and C08 with log sync on every write: at every file-system call the power is lost; of the data not yet flushed each file keeps everything, nothing, a half, or all but the last byte (and each combination of files keeps or loses its data); every distinct image is recovered, interrupted again during recovery (depth 2), and must contain the acknowledged events and all or none of the batch in flight.",
  {"directory operations (create, rename, unlink) are ordered and durable; only file data can be lost", "a flush makes the whole file durable"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 3 : 2;
    f.push_back({"create", 2, [](Ctx& c, uint64_t i) { run_create(c, i, true); }});
    for (auto& s : {S_plain, S_crc, S_rot}) add(f, {"C06", sync_of(s), preW(), len, lastW(), 2, true, true, nullptr});
    for (auto& s : {S_multi, S_cloud, S_keep, S_pipe, S_mixed}) { Setup x = sync_of(s); add_maint(f, x, th ? 2 : 1, 2, true); }
    for (auto& s : {S_plain, S_cloud}) { Setup x = sync_of(s); x.name = s.lay == L_PLAIN ? "drops" : "drops-cloud"; add(f, {"C06", x, preD(s.lay), len, lastD(), 2, true, true, nullptr}); }
  }});

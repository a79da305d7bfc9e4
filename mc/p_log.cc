// C19 the log keeps what is needed and is eventually trimmed
#include "alpha.h"
#include <inttypes.h>
#include <string.h>
static size_t wal_files() { size_t n = 0; for (auto& f : fs::listing()) if (f.first.find("/wal/") != std::string::npos) n++; return n; }
enum { A_W0, A_W1, A_W01, A_DEL, A_FAIL, A_R0, A_R1, A_CREATE, A_GC, A_KILL, A_D0, A_SVC, A_CKPT, A_FR, A_COUNT };

static void log_act(World& w, int a) {
  const char* s = "log";
  switch (a) {
    case A_W0: w.act(W({put(1, "a"), put(2, "b", "k")}), s); break;
    case A_W1: w.act(W({put(5, "c")}), s); break;
    case A_W01: w.act(W({put(0, "d"), put(6, "e"), put(1, "f")}), s); break;
    case A_DEL: w.act(W({del(1), del(5), del(7)}), s); break;
    case A_FAIL: { g_ctx->note("failed write"); fs::Fault f; f.kind = fs::Fault::ONCE; f.at = 0; fs::arm(f); bool ok = w.db.write({put(3, "x"), put(7, "x")}); fs::disarm(); if (ok) fail("harness: write did not fail", "-"); break; }
    case A_R0: w.act(C("refresh partition if exists 0"), s); break;
    case A_R1: w.act(C("refresh partition if exists 4"), s); break;
    case A_CREATE: w.act(C("debug 'wal_create'"), s); break;
    case A_GC: w.act(C("debug 'wal_gc'"), s); break;
    case A_KILL: w.act(Kill(), s); break;
    case A_D0: w.act(D(0), s); break;
    case A_SVC: w.act(Svc(), s); break;
    case A_CKPT: w.act(C("checkpoint"), s); break;
    case A_FR: { g_ctx->note("failed refresh"); fs::Fault f; f.kind = fs::Fault::STICKY; f.at = 0; fs::fault_mask(1u << fs::WRITE | 1u << fs::CREAT | 1u << fs::RENAME); fs::arm(f); w.db.exec("refresh partition if exists 0"); fs::disarm(); fs::fault_mask(~0u); break; }
  }
}
static void runLog(Ctx& c, int lay, std::vector<std::string> ex, std::vector<int> al, int len, uint64_t i) {
  World w(lay, ex); w.start(); uint64_t x = i; c.note("layout %s", layout_name[lay]);
  for (int k = 0; k < len; k++) { log_act(w, al[x % al.size()]); x /= al.size(); }
  w.check("log: before the crash");
  c.state(hash_model(w.m) * 7919 + wal_files() * 31 + i); c.want("log files seen at the end", wal_files());
  w.act(Kill(), "log"); w.check("log: contents after a crash");
  w.act(W({put(3, "z")}), "log"); w.act(Kill(), "log"); w.check("log: contents after a second crash");
  // eventually trimmed: everything refreshed, one new file, collected
  w.act(C("refresh partitions between 0 and 100"), "log"); w.settle(); w.act(C("debug 'wal_create'"), "log"); w.act(C("debug 'wal_gc'"), "log");
  if (wal_files() != 1) fail("log: not trimmed after everything is refreshed", "%zu files; %s", wal_files(), w.db.must("show wal").c_str());
  J j = parse_json(w.db.must("show wal")); if (j["files"].u != 1) fail("log: reported number of files differs", "%s", w.db.must("show wal").c_str());
  w.act(Kill(), "log"); w.check("log: after trimming and a crash"); c.exec();
  if (i % 20011 == 9) c.sample(c.trail);
}
// trimmed in the same process, without a crash in between
static void runTrim(Ctx& c, int lay, std::vector<std::string> ex, std::vector<int> al, int len, uint64_t i, bool by_service) {
  World w(lay, ex); w.start(); uint64_t x = i; c.note("layout %s", layout_name[lay]);
  for (int k = 0; k < len; k++) { log_act(w, al[x % al.size()]); x /= al.size(); }
  if (by_service) { w.act(C("checkpoint"), "log"); w.settle(); w.act(C("debug 'wal_create'"), "log"); w.act(C("debug 'wal_gc'"), "log"); }
  else { w.act(C("refresh partitions between 0 and 100"), "log"); w.act(C("debug 'wal_create'"), "log"); w.act(C("debug 'wal_gc'"), "log"); }
  if (wal_files() != 1) fail(by_service ? "log: not trimmed after checkpoint and service" : "log: not trimmed after refresh in the same process", "%zu files; %s %s", wal_files(), w.db.must("show wal").c_str(), w.db.must("show partitions debug").c_str());
  w.act(W({put(3, "z"), put(6, "z")}), "log"); w.act(Kill(), "log"); w.check("log: after trimming and a crash"); c.state(hash_model(w.m) + i * 3 + by_service); c.exec();
}
// rotation by size: the service must collect on its own
static void runRotate(Ctx& c, uint64_t i) {
  World w(L_PLAIN, {"set wal_rotate_wm to 1"}); w.start(); std::vector<int> al = {A_W0, A_W1, A_W01, A_R0, A_R1, A_SVC, A_CKPT, A_KILL, A_D0, A_FAIL}; uint64_t x = i;
  for (int k = 0; k < 4; k++) { log_act(w, al[x % al.size()]); x /= al.size(); }
  w.act(W({put(2, "y"), put(7, "y")}), "log"); w.act(C("checkpoint"), "log"); w.settle();
  if (wal_files() > 2) fail("log: not trimmed by the service", "%zu files", wal_files());
  w.act(Kill(), "log"); w.check("log: contents after a crash"); c.state(hash_model(w.m) + i); c.exec();
}
static PropReg c19({"C19", "model_checking",
  "every sequence of 5 (thorough: 6) of writes to one and two partitions, deletes, failing writes, refresh of either partition (and failing ones), log rotation, log collection, drop, service, checkpoint and crash; a crash is taken after every sequence and all contents compared, again after a write; then after refresh, rotation and collection exactly one log file must remain; the same is required without a crash, through checkpoint and service, and with automatic rotation.",
  {"a crash at each file-system call of rotation and collection is explored in C05 and C07"},
  [](bool th, std::vector<Family>& f) {
    std::vector<int> core = {A_W0, A_W1, A_W01, A_FAIL, A_R0, A_R1, A_CREATE, A_GC, A_KILL, A_D0}, all; for (int k = 0; k < A_COUNT; k++) all.push_back(k);
    for (int len = 1; len <= (th ? 6 : 5); len++) f.push_back({"plain-" + std::to_string(len), ipow(core.size(), len), [=](Ctx& c, uint64_t i) { runLog(c, L_PLAIN, {}, core, len, i); }});
    f.push_back({"all-actions", ipow(all.size(), th ? 5 : 4), [=](Ctx& c, uint64_t i) { runLog(c, L_PLAIN, {}, all, th ? 5 : 4, i); }});
    f.push_back({"cloud", ipow(core.size(), th ? 5 : 4), [=](Ctx& c, uint64_t i) { runLog(c, L_CLOUD, {}, core, th ? 5 : 4, i); }});
    for (int b = 0; b < 2; b++) f.push_back({b ? "trim-service" : "trim-refresh", ipow(all.size(), th ? 5 : 4), [=](Ctx& c, uint64_t i) { runTrim(c, L_PLAIN, {}, all, th ? 5 : 4, i, b); }});
    f.push_back({"rotation", ipow(10, 4), runRotate});
  }});

// C03 maintenance never changes what reads return
#include "alpha.h"
#include <inttypes.h>

static std::vector<Act> alphaC03(int lay) {
  auto v = cat(writes(), maint(lay)); v = cat(v, background()); v.push_back(C("alter storage main set (compression 'zstd')"));
  v.push_back(CF("drop partition if exists 0 on storage"));
  if (lay == L_MULTI || lay == L_MIXED) v.push_back(CF("alter storage s1 rename to renamed"));
  return v;
}
// refreshes, uploads and downloads which fail
static std::vector<Act> alphaFailed(int lay, bool th) {
  bool cloud = lay == L_CLOUD || lay == L_CLOUD_KEEP || lay == L_MIXED;
  std::vector<Act> v = writes(); v.push_back(W({put(3, "t"), del(1), put(2, "", "b")}));
  for (int st : {1, 2, 3}) if (th || !cloud || st != 2) v.push_back(FailRefresh(0, st));
  if (th) v.push_back(FailRefresh(8, 1));
  v.push_back(C("refresh partition if exists 0")); v.push_back(Svc());
  if (lay == L_PIPE) v.push_back(C("rebalance")); else if (lay != L_PLAIN) v.push_back(C("move partition if exists 0 into s1"));
  if (cloud) { for (const char* s : {"error_upload", "error_download"}) v.push_back(C(s)); v.push_back(C("upload partitions between 0 and 100 if cloud")); v.push_back(C("download partition if exists 0 if cloud")); v.push_back(CF("drop partition if exists 0 on storage")); v.push_back(CF("drop partition if exists 0 on cloud")); }
  v.push_back(Reopen()); return v;
}
// drop of one of two copies is only allowed while both exist
static bool skip(World& w, const Act& a) {
  if (a.k != Act::CMD || (a.cmd.find(" on storage") == std::string::npos && a.cmd.find(" on cloud") == std::string::npos)) return false;
  for (auto& p : partitions(w.db)) if (p.min == 0) return !(p.in_storage && p.in_cloud);
  return true;
}
static void runSeq(Ctx& c, int lay, uint64_t i, int len) {
  Elsewhere other;
  auto al = alphaC03(lay); World w(lay); w.start(); uint64_t x = i; std::vector<int> seq;
  for (int k = 0; k < len; k++) { seq.push_back(x % al.size()); x /= al.size(); }
  // sequences which start with maintenance on an empty database are covered by shorter ones
  c.note("layout %s", layout_name[lay]); bool renamed = false;
  for (int k = 0; k < len; k++) {
    Act a = al[seq[k]]; if (skip(w, a)) continue;
    if (a.cmd.find("rename") != std::string::npos) { if (renamed) continue; renamed = true; }
    if (renamed && a.cmd.find("into s1") != std::string::npos) a.cmd.replace(a.cmd.find("into s1"), 7, "into renamed");
    w.act(a, "sequence"); w.check("after " + (a.k == Act::WRITE ? std::string("write") : a.name()));
  }
  for (uint64_t id = 0; id <= 10; id++) for (const char* kk : {"", "j"}) { Key k{id, kk}; w.check("seek after a sequence", &k); }
  w.settle(); w.check("after service");
  w.reopen("sequence"); w.check("after reopen");
  w.act(C("refresh partitions between 0 and 1000"), "final refresh"); w.check("after final refresh");
  w.reopen("sequence"); w.check("after final reopen");
  c.state(hash_model(w.m) * 31 + i * 8 + lay); c.exec();
  if (i % 5003 == 11) c.sample(c.trail);
}
static void runFailed(Ctx& c, int lay, uint64_t i, int len) {
  Elsewhere other;
  auto al = alphaFailed(lay, c.thorough); World w(lay); w.start(); uint64_t x = i; std::vector<int> seq;
  for (int k = 0; k < len; k++) { seq.push_back(x % al.size()); x /= al.size(); }
  if (al[seq[0]].k != Act::WRITE) return;    // nothing to fail with
  c.note("layout %s", layout_name[lay]);
  for (int k = 0; k < len; k++) {
    Act a = al[seq[k]]; if (skip(w, a)) continue;
    if (a.cmd.compare(0, 6, "error_") == 0) {
      bool up = a.cmd == "error_upload"; c.note("failing %s", up ? "upload" : "download"); w.db.must("set " + a.cmd + " to true");
      w.db.exec(up ? "upload partitions between 0 and 100 if cloud" : "download partition if exists 0 if cloud"); w.db.must("set " + a.cmd + " to false");
    } else w.act(a, "failed maintenance");
    w.check("after " + (a.k == Act::WRITE ? std::string("write") : a.k == Act::FAILREF ? std::string("failing refresh") : a.name()));
  }
  for (uint64_t id = 0; id <= 10; id++) for (const char* kk : {"", "j"}) { Key k{id, kk}; w.check("seek after failed maintenance", &k); }
  w.settle(); w.check("after service"); w.reopen("failed maintenance"); w.check("after reopen");
  w.act(C("refresh partitions between 0 and 1000"), "final refresh"); w.check("after final refresh");
  for (auto& p : partitions(w.db)) if (p.in_memory) fail("failed maintenance: refresh left events in memory", "partition %" PRIu64, p.min);
  w.reopen("failed maintenance"); w.check("after final reopen");
  c.state(hash_model(w.m) * 31 + i * 8 + lay + 5); c.exec();
}
static PropReg c03({"C03", "model_checking",
  "every sequence of 4 actions (thorough: 5) over writes, deletes, refresh, move, upload, download, drop of one of two copies, checkpoint, service, log rotation and gc, storage changes, renaming and reopen, and of 5 (cloud layouts 4; thorough one more) actions over writes, refreshes failing at each stage, uploads and downloads which fail, and their successful counterparts, for each storage layout (plain, three storages with different options, cloud with and without local copies, pipeline, cloud on a second storage); after each action a full scan, and at the end seeks, service, reopen, refresh and reopen again, are compared with a sorted map.",
  {"single client thread; background requests are run by the SERVICE command (threads are covered by C16)", "clouds are the built-in mock provider and the S3 provider with a modelled server"},
  [](bool th, std::vector<Family>& f) {
    for (int lay = 0; lay < L_LAYOUTS; lay++) { size_t n = alphaC03(lay).size(); int len = th ? 5 : 4; if (!th && lay >= L_CLOUD && lay != L_CLOUD) len = 3;
      f.push_back({layout_name[lay], ipow(n, len), [lay, len](Ctx& c, uint64_t i) { runSeq(c, lay, i, len); }}); }
    for (int lay : {L_PLAIN, L_MULTI, L_CLOUD, L_CLOUD_KEEP, L_PIPE}) { size_t n = alphaFailed(lay, th).size(); int len = (th ? 6 : 5) - (lay == L_CLOUD || lay == L_CLOUD_KEEP); f.push_back({strf("failed-%s", layout_name[lay]), ipow(n, len), [lay, len](Ctx& c, uint64_t i) { runFailed(c, lay, i, len); }}); }
  }});

// C12 results do not depend on storage configuration
#include "alpha.h"
#include <inttypes.h>
#include <string.h>

struct Cf { int comp, level, enc, crc, sync, region; };
static const char* comps[] = {"none", "zstd", "lz4"};
static const char* keys32[] = {"0123456789abcdef0123456789abcdef", "fedcba9876543210fedcba9876543210", "aaaaaaaaaaaaaaaabbbbbbbbbbbbbbbb"};
static std::string opts(const Cf& c, int key) {
  std::string s = strf("compression '%s', compression_level %d, crc %s, sync %s, region_size %d", comps[c.comp], c.level, c.crc ? "true" : "false", c.sync ? "true" : "false", c.region);
  if (c.enc) s += strf(", encryption 'aes', encryption_key '%s'", keys32[key]);
  return s;
}
static const std::vector<Cf>& full() {
  static std::vector<Cf> v; if (v.empty()) { struct { int c, l; } cl[] = {{0, 0}, {1, 0}, {1, 1}, {1, 19}, {2, 0}, {2, 9}}; int rg[] = {1, 100, 5000, 131072};
    for (auto& x : cl) for (int e = 0; e < 2; e++) for (int k = 0; k < 2; k++) for (int s = 0; s < 2; s++) for (int r : rg) v.push_back({x.c, x.l, e, k, s, r}); }
  return v;
}
static const std::vector<Cf>& some() {
  static std::vector<Cf> v; if (v.empty()) for (int c = 0; c < 3; c++) for (int e = 0; e < 2; e++) for (int k = 0; k < 2; k++) for (int r : {60, 20000}) v.push_back({c, c == 1 ? 3 : 0, e, k, 1, r});
  return v;
}
static std::string noise(size_t n, uint64_t seed) { std::string r(n, 0); uint64_t x = seed * 0x9E3779B97F4A7C15ull + 12345; for (size_t k = 0; k < n; k++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r[k] = (char)(x >> 24); } return r; }
enum { NDATA = 7 };
static std::vector<Ev> data(int d, int round) {
  std::vector<Ev> b; auto pat = [&](size_t n, char c) { return std::string(n, c); };
  switch (d) {
    case 0: for (int k = 0; k < 6; k++) { b.push_back(put(k, "", std::string(k, 'a' + k))); b.push_back(put(k, k & 1 ? "v" : "", "zz")); } break;
    case 1: for (int k = 0; k < 40; k++) b.push_back(put(k, noise(k, k + round), std::string(k % 7, (char)(k * 37)))); break;
    case 2: for (int k = 0; k < 8; k++) b.push_back(put(k * 3, pat(3000, (char)round), k & 1 ? std::string(255, (char)0xff) : "")); break;
    case 3: for (int k = 0; k < 8; k++) b.push_back(put(k * 3, noise(3000, k * 7 + round + 1))); break;
    case 4: b.push_back(put(1, "t")); b.push_back(put(2, noise(60000 - 300, 5 + round), "k")); b.push_back(put(2, "", "l")); b.push_back(put(3, pat(40000, 'y'))); break;
    case 5: for (int k = 0; k < 600; k++) b.push_back(put(k, k % 3 ? noise(30, k) : pat(60, 'q'))); break;
    case 6: b.push_back(put(7, "")); break;
  }
  if (round) for (auto& e : b) if (e.id % 3 == 1 && d != 5) e.val += "r" + std::to_string(round);
  return b;
}
static std::vector<Ev> changes(int d, int round) {
  std::vector<Ev> b, a = data(d, round); size_t k = 0;
  for (auto& e : a) { if (k % 4 == (size_t)round % 4) b.push_back(del(e.id, e.key)); else if (k % 4 == 2) b.push_back(put(e.id, e.val + "+", e.key)); k++; }
  b.push_back(put(3000 + round, "tail")); if (b.size() > 60) b.resize(60);
  return b;
}
struct CW : World {
  CW(const std::vector<std::string>& pre) : World(L_PLAIN, pre) {}
  void fresh() { fs::reset(); fs::clock_frozen = true; if (!db.open()) fail("open failed", "%s", db.err.c_str()); }
  void w(const std::vector<Ev>& b) { if (!db.write(b)) fail("write failed", "%s", db.err.c_str()); upd(m, b); allowed = {m}; }
  void verify(const std::string& sig, bool seeks) {
    check(sig); if (!seeks) return;
    size_t n = m.size(), k = 0; for (auto& e : m) { if (n < 20 || k % (n / 10) == 0) { Key key = e.first; check_scan(db, m, sig + ": seek differs", &key, 3); key.second += "!"; if (key.second.size() < 256) check_scan(db, m, sig + ": seek differs", &key, 3); } k++; }
  }
  void die() { fs::Image im = fs::snapshot(); db.close(); fs::restore(im); sched::reset_objects(); if (!db.open()) fail("open after a crash failed", "%s", db.err.c_str()); }
  void refresh() { db.must("refresh partitions between 0 and 100000"); }
};
static std::vector<std::string> logopt(int l) {
  std::vector<std::string> v = {"set interval to 1000"};
  if (l == 1) v.push_back("set wal_crc to true"); if (l == 2) { v.push_back("set wal_sync_on_write to true"); v.push_back("set wal_rotate_wm to 1"); v.push_back("set wal_sync_on_rotate to false"); } if (l == 3) v.push_back("set wal to false");
  return v;
}
static void runConf(Ctx& c, uint64_t i) {
  const Cf& f = full()[i % full().size()]; i /= full().size(); int d = i % NDATA; int l = i / NDATA;
  auto pre = logopt(l); pre.push_back("set mm_page_size to 131072"); CW w(pre); w.fresh(); c.note("%s; data %d; log options %d", opts(f, 0).c_str(), d, l);
  w.db.must("alter storage main set (" + opts(f, 0) + ")");
  w.w(data(d, 0)); w.verify("in memory", false); w.refresh(); w.verify("refreshed", true);
  w.w(changes(d, 0)); w.verify("changed", true); if (l != 3) { w.die(); w.verify("after crash", false); }
  w.refresh(); w.verify("refreshed again", true); w.w(data(d, 1)); w.refresh(); w.w(changes(d, 2)); if (l == 3) w.refresh();
  w.reopen("configuration"); w.verify("after reopen", true); w.refresh(); w.verify("refreshed after reopen", false);
  c.state(c.index + 1); c.exec();
}
static void runPath(Ctx& c, uint64_t i, int hops) {
  size_t n = some().size(); std::vector<Cf> f; for (int k = 0; k < hops; k++) { f.push_back(some()[i % n]); i /= n; } int d = i % 6; if (d == 5) d = 6; i /= 6; bool upd_between = i % 2;
  CW w({"set interval to 1000", "set mm_page_size to 131072"}); w.fresh(); c.note("data %d", d);
  for (int k = 0; k < hops; k++) { c.note("s%d: %s", k, opts(f[k], k).c_str()); w.db.must(strf("create storage s%d (", k) + opts(f[k], k) + ")"); }
  w.db.must("alter storage main set (compression 'none')"); w.w(data(d, 0));
  for (int k = 0; k < hops; k++) { if (upd_between) w.w(changes(d, k)); w.db.must(strf("move partitions between 0 and 100000 into s%d", k)); w.verify("after move", k > 0); if (upd_between) { w.w(data(d, k)); w.refresh(); w.verify("after move and refresh", false); } }
  w.reopen("configuration"); w.verify("after move and reopen", true);
  w.db.must("move partitions between 0 and 100000 into s0"); w.db.must("move partitions between 0 and 100000 into main"); w.verify("after moving back", false); w.die(); w.verify("after moving back and crash", false);
  c.state((1ull << 32) + c.index); c.exec();
}
static const std::vector<int>& sizes() {
  static std::vector<int> v; if (v.empty()) { for (int k = 0; k <= 300; k++) v.push_back(k); for (int p = 9; p <= 20; p++) for (int x = -3; x <= 3; x++) v.push_back((1 << p) + x); for (int x : {1000, 3000, 10000, 100000, 500000, 1000000}) for (int y = -2; y <= 2; y++) v.push_back(x + y); }
  return v;
}
static void runSize(Ctx& c, uint64_t i) {
  int sz = sizes()[i % sizes().size()]; i /= sizes().size(); Cf f{(int)(i % 3), 0, (int)(i / 3 % 2), 1, 1, i / 6 % 2 ? 131072 : 1}; int content = i / 12;
  CW w({"set interval to 1000", "set mm_page_size to 2097152", "set wal_crc to true"}); w.fresh(); w.db.must("alter storage main set (" + opts(f, 0) + ")"); c.note("size %d, %s, content %d", sz, opts(f, 0).c_str(), content);
  auto val = [&](int s) { return content ? noise(sz, s) : std::string(sz, (char)s); };
  w.w({put(1, val(1), "k"), put(2, "n")}); w.refresh(); w.verify("one event", true); w.w({put(2, val(2)), del(1, "k")}); if (sz < 500000) w.w({put(3, val(3)), put(1, val(4))});
  w.die(); w.verify("after crash", false); w.refresh(); w.verify("replaced", true); w.reopen("sizes"); w.verify("after reopen", false);
  c.state((2ull << 32) + c.index); c.exec();
}
static const std::vector<std::string>& alts() { static std::vector<std::string> v = {"compression 'none'", "compression 'zstd'", "compression 'lz4'", "compression_level 0", "compression_level 5", "region_size 30", "region_size 3000", "sync false", "refresh_wm 100"}; return v; }
static void runAlter(Ctx& c, uint64_t i, int len) {
  int enc = i % 2; i /= 2; CW w({"set interval to 20", "set wal_crc to true"}); w.fresh(); if (enc) w.db.must(std::string("alter storage main set (encryption 'aes', encryption_key '") + keys32[0] + "')");
  w.w(data(1, 0)); w.refresh();
  for (int k = 0; k < len; k++) { auto& a = alts()[i % alts().size()]; i /= alts().size(); c.note("alter %s", a.c_str()); w.db.must("alter storage main set (" + a + ")"); w.verify("after alter", false);
    w.w(changes(1, k)); if (k % 2 == 0) w.db.must("refresh partition if exists 0"); else { w.db.must("checkpoint"); w.settle(); } w.verify("altered and refreshed", k == len - 1); }
  w.reopen("alter"); w.verify("altered, after reopen", true); w.refresh(); w.die(); w.verify("altered, after crash", false); c.state((3ull << 32) + c.index); c.exec();
}
static void runCloud(Ctx& c, uint64_t i) {
  const Cf& f = some()[i % some().size()]; i /= some().size(); int d = i % 6; if (d == 5) d = 6; bool keep = i / 6 % 2;
  CW w({"set interval to 1000", "set mm_page_size to 131072"}); w.fresh(); c.note("%s data %d", opts(f, 0).c_str(), d); w.db.must(create_cloud(keep));
  w.db.must("alter storage main set (cloud 'cl', " + opts(f, 0) + strf(", cloud_drop_local %s)", keep ? "false" : "true"));
  w.w(data(d, 0)); w.refresh(); w.db.must("upload partitions between 0 and 100000 if cloud"); w.settle(); w.verify("uploaded", true); w.w(changes(d, 0)); w.verify("uploaded, changed in memory", true);
  if (keep) { w.db.must("drop partition 0 on storage"); w.verify("only in the cloud", true); }
  w.refresh(); w.settle(); w.verify("refreshed in the cloud", true); w.reopen("cloud"); w.verify("cloud, after reopen", true); w.db.must("download partitions between 0 and 100000 if cloud"); w.verify("downloaded", true); w.die(); w.verify("downloaded, after crash", false);
  c.state((4ull << 32) + c.index); c.exec();
}
static PropReg c12({"C12", "model_checking",
  "the same histories run under every combination of compression (none, zstd and lz4 at several levels), encryption, checksums, sync, region size and log options, with seven data sets (empty, tiny, compressible, incompressible, large, many events); every ordered pair (thorough: triple) of 24 storage configurations as the path of a partition with and without changes between the moves; every value size 0..300 and around powers of two up to 1 MB for each compression and encryption; every sequence of 3 (thorough: 4) changes of storage options with refreshes between them; all 24 configurations in the cloud. After each step scan and seeks are compared byte for byte with a sorted map.",
  {"clouds are the built-in mock provider and the S3 provider with a modelled server", "values larger than a memory page are refused by design"},
  [](bool th, std::vector<Family>& f) {
    f.push_back({"options", full().size() * NDATA * 4, runConf});
    size_t n = some().size(); f.push_back({"paths", n * n * 12, [](Ctx& c, uint64_t i) { runPath(c, i, 2); }});
    if (th) f.push_back({"paths3", n * n * n * 12, [](Ctx& c, uint64_t i) { runPath(c, i, 3); }});
    f.push_back({"sizes", sizes().size() * 24, runSize});
    f.push_back({"alter", 2 * ipow(alts().size(), th ? 4 : 3), [th](Ctx& c, uint64_t i) { runAlter(c, i, th ? 4 : 3); }});
    f.push_back({"cloud", some().size() * 12, runCloud});
  }});

// C11 damaged files are detected, never returned as data
#include "alpha.h"
#include <inttypes.h>
#include <string.h>

static const char* comps[] = {"none", "zstd", "lz4"};
struct DC { int comp, enc, region, mode; };        // mode: 0 local, 1 local and cloud, 2 cloud only, 3 several refreshes
static std::vector<DC> dcs(bool th) { std::vector<DC> v; for (int m = 0; m < 4; m++) for (int c = 0; c < 3; c++) for (int e = 0; e < 2; e++) for (int r : {60, 5000}) { v.push_back({c, e, r, m}); } return v; }
struct Built { fs::Image img; Model m; std::vector<std::string> files; };
static const std::vector<std::string>& pre() { static std::vector<std::string> v = {"set interval to 10"}; return v; }
static void start(World& w) { fs::clock_frozen = true; sched::reset_objects(); (void)w; }
static const Built& built(const DC& d) {
  static std::map<std::string, Built> cache; std::string k = strf("%d %d %d %d", d.comp, d.enc, d.region, d.mode); auto i = cache.find(k); if (i != cache.end()) return i->second;
  fs::reset(); World w(L_PLAIN, pre()); start(w); if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str());
  if (d.mode == 1 || d.mode == 2) { w.db.must(create_cloud(d.mode == 2)); w.db.must(strf("alter storage main set (cloud 'cl', cloud_drop_local %s)", d.mode == 2 ? "true" : "false")); }
  w.db.must(strf("alter storage main set (crc true, compression '%s', region_size %d)", comps[d.comp], d.region)); if (d.enc) w.db.must("alter storage main set (encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')");
  w.act(W({put(1, "alpha"), put(2, "bravo-bravo", "k"), put(3, std::string(30, 'c')), put(4, "d"), put(7, "echo"), put(12, "foxtrot"), put(15, ""), put(18, "golf", "\xff\x01")}), "setup");
  w.act(C("refresh partitions between 0 and 100"), "setup"); if (d.mode == 3) { w.act(W({put(2, "B2", "k"), del(4), put(8, "new"), put(12, "F2")}), "setup"); w.act(C("refresh partitions between 0 and 100"), "setup"); w.act(W({put(5, "in memory"), del(1)}), "setup"); }
  if (d.mode == 1 || d.mode == 2) w.act(C("upload partitions between 0 and 100 if cloud"), "setup");
  if (d.mode != 3) { w.act(C("debug 'wal_create'"), "setup"); w.act(C("debug 'wal_gc'"), "setup"); }
  w.check("setup"); Built b; b.m = w.m; w.db.close(); b.img = fs::snapshot();
  for (auto& f : fs::listing()) if (f.second && f.first.find("/wal/") == std::string::npos && f.first.find("config.json") == std::string::npos && f.first.find("/log") == std::string::npos) b.files.push_back(f.first);
  size_t want = d.mode == 1 ? 6 : d.mode == 2 ? 4 : 2; if (b.files.size() != want) fail("harness: files", "mode %d: %zu files\n%s", d.mode, b.files.size(), b.img.list().c_str());
  return cache.emplace(k, b).first->second;
}
static const char* mods[] = {"^01", "^80", "=00", "=ff", "+1", "^10"};
static bool change(std::string& s, size_t pos, int mod) {
  unsigned char c = s[pos], o = c; switch (mod) { case 0: c ^= 1; break; case 1: c ^= 0x80; break; case 2: c = 0; break; case 3: c = 0xff; break; case 4: c++; break; case 5: c ^= 0x10; break; }
  s[pos] = c; return c != o;
}
// reads are correct or fail
static void look(World& w, const Model& m, const char* what, const std::string& where, bool seeks) {
  std::vector<std::pair<Key, std::string>> got;
  if (w.db.scan(&got)) { std::string d = diff(m, got); if (!d.empty()) fail(strf("damage is not noticed: %s", what), "%s: %s", where.c_str(), d.c_str()); } else g_ctx->want("reads refused");
  if (seeks) for (auto& e : m) { got.clear(); if (!w.db.scan(&got, &e.first, 2)) continue; auto i = m.find(e.first); for (auto& g : got) { if (i == m.end() || g.first != i->first || g.second != i->second) fail(strf("damage is not noticed by a seek: %s", what), "%s: seek to %s", where.c_str(), show_key(e.first).c_str()); ++i; } if (got.size() < 2 && i != m.end()) fail(strf("damage is not noticed by a seek: %s", what), "%s: seek to %s ends early", where.c_str(), show_key(e.first).c_str()); }
}
static void one(Ctx& c, const DC& d, const Built& b, const std::string& file, const std::string& data, const std::string& where) {
  fs::restore(b.img); fs::write_file(file, data); World w(L_PLAIN, pre()); start(w); c.exec();
  if (!w.db.open()) { w.db.close(); check_no_handles("damaged file"); c.want("opens refused"); return; }
  c.want("opened"); Model m = b.m; look(w, m, "after open", where, true);
  std::vector<Ev> nw = {put(6, "added"), put(13, "added"), del(3)}; if (w.db.write(nw)) { upd(m, nw); look(w, m, "after a write", where, false); }
  if (w.db.exec("refresh partitions between 0 and 100")) c.want("refreshed"); look(w, m, "after a refresh", where, false);
  if (d.mode == 1 || d.mode == 2) { w.db.exec("upload partitions between 0 and 100 if cloud"); look(w, m, "after an upload", where, false); w.db.exec("download partitions between 0 and 100 if cloud"); look(w, m, "after a download", where, false); }
  w.db.close(); check_no_handles("damaged file"); if (w.db.open()) look(w, m, "after a second open", where, false); w.db.close(); check_no_handles("damaged file");
}
static void flip(Ctx& c, uint64_t i, bool th) {
  static std::map<bool, std::vector<DC>> all; auto& v = all[th]; if (v.empty()) v = dcs(th);
  const DC& d = v[i % v.size()]; i /= v.size(); const Built& b = built(d); size_t fi = i % 6; i /= 6; if (fi >= b.files.size()) return; const std::string& f = b.files[fi]; fs::restore(b.img); std::string s = fs::read_file(f); if (i >= s.size()) return;
  c.note("%s %s region %d mode %d: %s (%zu bytes) at %" PRIu64, comps[d.comp], d.enc ? "aes" : "-", d.region, d.mode, f.c_str(), s.size(), i);
  for (int k = 0; k < (th ? 6 : 4); k++) { std::string t = s; if (!change(t, i, k)) continue; c.sub = k; one(c, d, b, f, t, strf("%s byte %" PRIu64 " %s", f.c_str(), i, mods[k])); }
  c.sub = 9; one(c, d, b, f, s.substr(0, i), strf("%s cut to %" PRIu64, f.c_str(), i));
  if (th) { c.sub = 10; one(c, d, b, f, s.substr(i ? 1 : 0, i) + s.substr(i), strf("%s shifted up to %" PRIu64, f.c_str(), i)); std::string t = s; for (size_t k = i; k < std::min(s.size(), (size_t)i + 16); k++) t[k] = 0; c.sub = 11; one(c, d, b, f, t, strf("%s zeros at %" PRIu64, f.c_str(), i)); }
  c.state(std::hash<std::string>()(f) + i * 31 + d.comp * 7 + d.enc * 3 + d.mode * 1000 + d.region);
}
// ---- log
struct LOp { int file = 0; size_t end = 0; std::vector<Ev> b; bool drop = false; uint64_t lo = 0, hi = 0; };
struct LB { fs::Image img; Model base; std::vector<LOp> ops; std::vector<std::string> files; std::set<std::pair<int, size_t>> ends; };
static void app(Model& m, const LOp& o) { if (!o.drop) { upd(m, o.b); return; } for (auto i = m.begin(); i != m.end();) if (i->first.first >= o.lo && i->first.first <= o.hi) i = m.erase(i); else ++i; }
enum { NLOG = 6 };
static const LB& logdb(int n) {
  static std::map<int, LB> cache; auto i = cache.find(n); if (i != cache.end()) return i->second; LB b;
  fs::reset(); World w(L_PLAIN, pre()); w.db.pre.push_back("set wal_crc to true"); start(w); if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str());
  if (n >= 4) { w.act(W({put(31, "s1"), put(32, "s2"), put(45, "s3")}), "setup"); w.act(C("refresh partitions between 0 and 100"), "setup"); w.act(C("debug 'wal_create'"), "setup"); w.act(C("debug 'wal_gc'"), "setup"); b.base = w.m; }
  auto files = [&] { std::vector<std::string> v; for (auto& f : fs::listing()) if (f.first.find("/wal/") != std::string::npos && f.first.size() > 4 && f.first.compare(f.first.size() - 4, 4, ".wal") == 0) v.push_back(f.first); return v; };
  auto note = [&](LOp o) { auto v = files(); o.file = (int)v.size() - 1; o.end = fs::listing()[v.back()]; b.ops.push_back(o); };
  auto wr = [&](const std::vector<Ev>& e) { w.act(W(e), "log"); LOp o; o.b = e; for (auto& x : o.b) if (!x.del) x.val += strf("@%d", w.step - 1); note(o); };
  auto dr = [&](uint64_t id) { w.act(D(id), "log"); LOp q; q.drop = true; q.lo = id / 10 * 10; q.hi = q.lo + 9; note(q); };
  auto rot = [&] { w.act(C("debug 'wal_create'"), "log"); };
  switch (n) {
    case 0: wr({put(1, "a")}); wr({put(2, "b", "k"), put(12, "c")}); wr({put(1, "z"), del(2, "k")}); break;
    case 1: wr({put(1, "a"), put(2, ""), put(3, "cc", "key")}); dr(1); wr({put(3, "d")}); wr({put(14, "e")}); break;
    case 2: wr({put(1, "a"), put(11, "b")}); wr({put(2, "b")}); rot(); wr({put(1, "c")}); wr({put(12, std::string(60, 'x')), del(11)}); break;
    case 3: wr({put(1, "a")}); rot(); dr(1); wr({put(2, "q")}); rot(); wr({put(3, "r"), put(1, "t")}); break;
    case 4: wr({put(31, "x"), put(1, "n")}); wr({del(32)}); rot(); wr({put(46, "y")}); wr({put(45, "w")}); break;
    case 5: wr({put(33, "x")}); wr({put(31, "u"), put(34, "v"), del(45)}); wr({put(1, "p"), put(2, "p"), put(3, "p")}); dr(3); break;
  }
  Model m = b.base; for (auto& o : b.ops) app(m, o); if (!(m == w.m)) fail("harness: log model", " "); w.check("log");
  // the files as they are after process death
  b.files = files(); b.img = fs::snapshot(); w.db.close(); return cache.emplace(n, b).first->second;
}
static void onelog(Ctx& c, const LB& b, int fi, const std::string& data, size_t pos, bool cut, const std::string& where) {
  fs::restore(b.img); fs::write_file(b.files[fi], data); World w(L_PLAIN, pre()); w.db.pre.push_back("set wal_crc to true"); start(w); c.exec();
  if (!w.db.open()) { w.db.close(); check_no_handles("damaged log"); c.want("opens refused"); return; }
  Model all = b.base, part = b.base; for (auto& o : b.ops) { app(all, o); if (o.file != fi || o.end <= pos) app(part, o); }
  std::vector<std::pair<Key, std::string>> got; if (!w.db.scan(&got)) { w.db.close(); c.want("reads refused"); return; }
  Model m = to_model(got); std::string d1 = diff(part, got), d2 = diff(all, got);
  if (!d1.empty() && (cut || !d2.empty())) fail("damaged log: contents", "%s: neither ended at the damaged record (%s) nor unaffected (%s)", where.c_str(), d1.c_str(), d2.c_str());
  c.want(d2.empty() ? "unaffected" : "log ended early");
  std::vector<Ev> nw = {put(6, "added"), put(13, "added")}; if (!w.db.write(nw)) fail("damaged log: write", "%s: %s", where.c_str(), w.db.err.c_str()); upd(m, nw);
  fs::Image im = fs::snapshot(); w.db.close(); check_no_handles("damaged log"); fs::restore(im); sched::reset_objects();
  if (!w.db.open()) fail("damaged log: open after recovery and a crash", "%s: %s", where.c_str(), w.db.err.c_str()); check_scan(w.db, m, "damaged log: contents after recovery and a crash (" + std::string(cut ? "cut" : "changed") + ")");
  w.db.must("refresh partitions between 0 and 100"); w.db.close(); if (!w.db.open()) fail("damaged log: open after refresh", "%s", w.db.err.c_str()); check_scan(w.db, m, "damaged log: contents after refresh"); w.db.close();
}
static void logflip(Ctx& c, uint64_t i) {
  const LB& b = logdb(i % NLOG); i /= NLOG; int fi = i % 4; i /= 4; if (fi >= (int)b.files.size()) return; fs::restore(b.img); std::string s = fs::read_file(b.files[fi]); if (i >= s.size()) return;
  c.note("log file %d (%zu bytes) at %" PRIu64, fi, s.size(), i);
  for (int k = 0; k < 6; k++) { std::string t = s; if (!change(t, i, k)) continue; c.sub = k; onelog(c, b, fi, t, i, false, strf("file %d byte %" PRIu64 " %s", fi, i, mods[k])); }
  c.sub = 9; onelog(c, b, fi, s.substr(0, i), i, true, strf("file %d cut to %" PRIu64, fi, i));
  std::string t = s; for (size_t k = i; k < t.size(); k++) t[k] = 0; c.sub = 10; onelog(c, b, fi, t, i, false, strf("file %d zeros from %" PRIu64, fi, i));
  c.state(i * 64 + fi * 8 + c.index % NLOG + (1ull << 40));
}
static PropReg c11({"C11", "model_checking",
  "every byte position of every partition file, cloud object and cloud index of databases with checksums for every combination of compression, encryption and region size, local, in the cloud, both, and after several refreshes, changed in 4 (thorough 6) ways, and every truncation length: open, scan, every seek, a write, refresh, upload, download and a second open each fail or give exactly the reference contents. Every byte position of every log file of six histories (drops, rotation, refreshed data) changed in 6 ways, every truncation and every tail of zeros: open fails, or the contents are those of the log without the damaged and the later records of that file (or all, if the change has no effect), and stay so after writes, a crash and a refresh",
  {"clouds are the built-in mock provider and the S3 provider with a modelled server", "one damaged place at a time"},
  [](bool th, std::vector<Family>& f) {
    f.push_back({"partition files", dcs(th).size() * 6 * 900, [th](Ctx& c, uint64_t i) { flip(c, i, th); }});
    f.push_back({"log files", NLOG * 4 * 400, logflip});
  }});

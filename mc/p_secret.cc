// C23 encrypted storages never hold plaintext and need their key
#include "alpha.h"
#include <inttypes.h>
#include <string.h>
#include <unordered_map>

static const char* K0 = "0123456789abcdef0123456789abcdef";
static const char* K1 = "fedcba9876543210fedcba9876543210";
static const char* comps[] = {"none", "zstd", "lz4"};
static std::string secret(uint64_t seed, size_t n) { std::string r; uint64_t x = seed * 0x9E3779B97F4A7C15ull + 99; while (r.size() < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r += (char)('!' + (x >> 30) % 90); } for (auto& c : r) if (c == '"' || c == '\\') c = '_'; return r; }

// small open-addressing set of 64-bit keys with a value, cheap to clear
struct Table {
  std::vector<uint64_t> k; std::vector<uint64_t> v; std::vector<uint32_t> used; Table() : k(1 << 17), v(1 << 17) {}
  void clear() { for (auto u : used) k[u] = 0; used.clear(); }
  // the value stored before, or val if the key is new
  uint64_t put(uint64_t key, uint64_t val) { if (!key) key = 1; uint32_t i = (key * 0x9E3779B97F4A7C15ull) >> 47; while (k[i] && k[i] != key) i = (i + 1) & ((1 << 17) - 1); if (k[i]) return v[i]; if (used.size() > 100000) fail("harness: table full", " "); k[i] = key; v[i] = val; used.push_back(i); return val; }
  bool has(uint64_t key) const { if (!key) key = 1; uint32_t i = (key * 0x9E3779B97F4A7C15ull) >> 47; while (k[i] && k[i] != key) i = (i + 1) & ((1 << 17) - 1); return k[i] != 0; }
};
static Table& windows() { static Table t; return t; }
static Table& pieces() { static Table t; return t; }
static uint64_t u8at(const std::string& s, size_t k) { uint64_t x; memcpy(&x, s.data() + k, 8); return x; }

struct SW : World {
  std::set<std::string> enc, clear_;                 // directories of encrypted and of clear storages
  std::vector<std::string> secrets; bool cloud; std::set<std::string> seen; std::unordered_set<uint64_t> looked; int blobs = 0;
  SW(const std::vector<std::string>& pre, bool cloud) : World(L_PLAIN, pre), cloud(cloud) { windows().clear(); pieces().clear(); }
  void add_secret(const std::string& x) { secrets.push_back(x); for (size_t k = 0; k + 8 <= x.size(); k++) pieces().put(u8at(x, k), secrets.size()); }
  void secret_of(const Ev& e) { if (e.key.size() >= 8) add_secret(e.key); if (e.val.size() >= 8) add_secret(e.val); }
  void dirs() {
    enc.clear(); clear_.clear(); J j = parse_json(db.must("show storages debug"));
    std::string cfg = fs::read_file(db.path + "/config.json"); J c = parse_json(cfg); const J& s = c["storages"];
    for (size_t i = 0; i < s.size(); i++) { std::string d = db.path + "/" + s[i]["uuid"].s; auto& x = s[i]["encryption"].s == "aes" ? enc : clear_; x.insert(d); x.insert(std::string(fs::ROOT) + "/s3/" + s[i]["uuid"].s); }
    if (enc.size() < 2) fail("harness: storages not found", "%s", cfg.c_str());
  }
  void no_plaintext(const fs::Image& im, const char* what) {
    for (auto& e : im.ents) if (!e.second.dir) for (auto& d : enc) if (e.first.compare(0, d.size() + 1, d + "/") == 0) {
      auto& s = *e.second.cur; if (s.size() < 8 || !looked.insert(std::hash<std::string>()(s)).second) continue;
      for (size_t k = 0; k + 8 <= s.size(); k++) if (pieces().has(u8at(s, k))) fail("plaintext in a file of an encrypted storage", "%s contains %s at %zu (%s)", e.first.c_str(), quote(s.substr(k, 8)).c_str(), k, what);
    }
  }
  // no piece of ciphertext appears in two files: equal contents are encrypted differently each time
  void no_reuse() {
    for (auto& f : fs::listing()) for (auto& d : enc) if (f.first.compare(0, d.size() + 1, d + "/") == 0 && f.second > 0) {
      std::string s = fs::read_file(f.first); if (!seen.insert(s).second) continue; int id = ++blobs; size_t end = s.size() > 140 ? s.size() - 140 : 0;
      for (size_t k = 0; k + 12 <= end; k++) {
        int z = 0; for (size_t q = k; q < k + 12; q++) z += s[q] == 0; if (z >= 2) continue;
        uint32_t hi; memcpy(&hi, s.data() + k + 8, 4); uint64_t me = (uint64_t)id << 32 | k, r = windows().put(u8at(s, k) * 0x9E3779B97F4A7C15ull + hi * 0xC2B2AE3D27D4EB4Full, me);
        if (r != me && !(cloud && (int)(r >> 32) != id)) fail("equal bytes in two encrypted regions", "%s: the bytes at %zu already appeared in %s at %u", f.first.c_str(), k, (int)(r >> 32) == id ? "the same file" : "an older file", (uint32_t)r); }
    }
  }
  void placement(const char* what) {
    dirs(); std::set<std::string> encn; J c = parse_json(fs::read_file(db.path + "/config.json")); for (size_t i = 0; i < c["storages"].size(); i++) if (c["storages"][i]["encryption"].s == "aes") encn.insert(c["storages"][i]["name"].s);
    for (auto& p : partitions(db)) if (encn.count(p.storage)) for (auto& f : fs::listing()) for (auto& d : clear_) if (f.first.compare(0, d.size() + 1, d + "/") == 0 && f.first.find(strf("%020" PRIu64, p.min)) != std::string::npos) fail("a clear copy stays behind", "%s after %s, partition %" PRIu64 " is in %s", f.first.c_str(), what, p.min, p.storage.c_str());
  }
};
static std::vector<Ev> batch(int n) {   // n selects the contents: equal n gives equal contents
  return {put(1, secret(n * 10 + 1, 24), secret(7, 12)), put(2, secret(n * 10 + 2, 40)), put(5, secret(n * 10 + 3, 24)), put(6, secret(n * 10 + 1, 24), secret(8, 9)), put(9, secret(n * 10 + 2, 40))};
}
struct SCfg { int comp, region, crc, cloud; };
static std::vector<SCfg> cfgs() { std::vector<SCfg> v; for (int c = 0; c < 3; c++) for (int r : {20, 4000}) for (int k = 0; k < 2; k++) for (int cl = 0; cl < 3; cl++) { if (k && r == 20) continue; v.push_back({c, r, k, cl}); } return v; }
static std::vector<Act> acts(const SCfg& f) {
  std::vector<Act> v = {W(batch(0)), W({del(2), put(5, secret(77, 30)), put(1, secret(5, 24), secret(7, 12))}), C("refresh partitions between 0 and 100"), CF("move partition 0 into e0"), C("move partitions between 0 and 100 into e0"), C("move partitions between 0 and 100 into e1"), CF("move partition 0 into p"), C("move partition if exists 4 into main"), Reopen(), Kill()};
  if (f.cloud) { v.push_back(C("upload partitions between 0 and 100 if cloud")); v.push_back(C("download partitions between 0 and 100 if cloud")); v.push_back(Svc()); }
  else v.push_back(C("checkpoint"));
  return v;
}
static void setup(SW& w, const SCfg& f) {
  fs::reset(); fs::clock_frozen = true; sched::reset_objects(); if (!w.db.open()) fail("open failed", "%s", w.db.err.c_str());
  std::string o = strf("compression '%s', crc %s, region_size %d", comps[f.comp], f.crc ? "true" : "false", f.region), cl;
  if (f.cloud) { w.db.must(create_cloud(f.cloud == 2)); cl = strf(", cloud 'cl', cloud_drop_local %s", f.cloud == 1 ? "true" : "false"); }
  w.db.must("create storage e0 (" + o + ", encryption 'aes', encryption_key '" + K0 + "'" + cl + ")"); w.db.must("create storage e1 (" + o + ", encryption 'aes', encryption_key '" + K1 + "')");
  w.db.must("create storage p (" + o + cl + ")"); w.db.must("alter pipeline reset"); w.dirs();
}
static void secrecy(Ctx& c, uint64_t i, int len) {
  auto cf = cfgs(); SCfg f = cf[i % cf.size()]; i /= cf.size(); int st = i % 3; i /= 3; auto al = acts(f);
  SW w({"set interval to 4"}, f.cloud); setup(w, f); c.note("%s region %d cloud %d", comps[f.comp], f.region, f.cloud);
  for (int n = 0; n < 2; n++) for (auto& e : batch(n)) w.secret_of(e); w.add_secret(secret(77, 30)); w.add_secret(secret(5, 24));
  auto step = [&](const Act& a) {
    std::vector<std::string> bad; bool may = a.may_fail; Act b = a; b.may_fail = may;
    fs::set_recorder([&](const fs::Point& p, const fs::Image& im) { if (p.op == fs::RENAME || p.op == fs::SYNC || p.op == fs::UNLINK || p.op == fs::CREAT) w.no_plaintext(im, "during an action"); }, false);
    w.act(b, "encrypted storage"); fs::clear_recorder(); w.no_plaintext(fs::snapshot(), a.name().c_str()); w.no_reuse(); w.placement(a.name().c_str()); };
  step(W(batch(0))); step(C("refresh partitions between 0 and 100"));
  if (st >= 1) step(C("move partitions between 0 and 100 into e0")); if (st == 2) { step(W(batch(0))); step(C("refresh partitions between 0 and 100")); }
  for (int k = 0; k < len; k++) { step(al[i % al.size()]); i /= al.size(); }
  w.check("encrypted storage"); c.exec(); c.state(fs::snapshot().hash());
  w.db.close(); check_no_handles("encrypted storage");
}
// a different key
static std::vector<std::string> wrong_keys() { std::vector<std::string> v; for (int k = 0; k < 32; k++) { std::string s = K0; s[k] ^= 1; v.push_back(s); } v.push_back(K1); v.push_back(std::string(32, '0')); v.push_back(std::string(K0).substr(0, 31)); v.push_back(std::string(K0) + "0"); v.push_back(""); return v; }
static void wrong(Ctx& c, uint64_t i) {
  auto cf = cfgs(); SCfg f = cf[i % cf.size()]; i /= cf.size(); auto wk = wrong_keys(); std::string key = wk[i % wk.size()]; i /= wk.size(); int st = i % 3;
  SW w({"set interval to 4"}, f.cloud); setup(w, f); c.note("%s region %d cloud %d, key %s, state %d", comps[f.comp], f.region, f.cloud, quote(key).c_str(), st);
  w.act(W(batch(0)), "setup"); w.act(C("refresh partitions between 0 and 100"), "setup"); w.act(C("move partitions between 0 and 100 into e0"), "setup"); if (f.cloud) w.settle();
  if (st == 1) w.act(W(batch(1)), "setup"); if (st == 2) { w.act(W({put(20, "mem"), del(2)}), "setup"); w.act(C("refresh partition if exists 20"), "setup"); }
  w.db.close(); std::string cp = w.db.path + "/config.json";
  auto setkey = [&](const std::string& from, const std::string& to) { std::string t = fs::read_file(cp); size_t n = 0; for (size_t p = t.find("\"" + from + "\""); p != std::string::npos; p = t.find("\"" + from + "\"", p + 1)) { t.replace(p, from.size() + 2, "\"" + to + "\""); n++; break; } if (!n) fail("harness: key not found", "%s", t.c_str()); fs::write_file(cp, t); };
  std::string mark = key.empty() ? "\"encryption_key\": \"\"" : ""; std::string saved = fs::read_file(cp); setkey(K0, key);
  bool opened = w.db.open(); Model m = w.m;
  if (opened) {
    auto look = [&](const char* what) { std::vector<std::pair<Key, std::string>> got; if (!w.db.scan(&got)) return; std::string d = diff(m, got); if (!d.empty()) fail("read with a wrong key", "%s: %s", what, d.c_str()); };
    look("scan"); std::vector<Ev> b = {put(3, "added"), put(21, "added")}; if (w.db.write(b)) upd(m, b); look("scan after write");
    w.db.exec("refresh partitions between 0 and 100"); look("scan after refresh"); for (int k = 0; k < 10; k++) w.db.exec("service"); w.db.exec("move partitions between 0 and 100 into e1"); look("scan after move"); w.db.exec("download partitions between 0 and 100 if cloud"); look("scan after download"); c.want("opened with a wrong key");
    w.db.close(); setkey(key, K0);
  } else { w.db.close(); fs::write_file(cp, saved); c.want("refused with a wrong key"); }
  check_no_handles("wrong key"); if (!w.db.open()) fail("database does not open with the right key again", "%s", w.db.err.c_str());
  check_scan(w.db, m, "contents with the right key again"); c.exec(); c.state(fs::snapshot().hash()); w.db.close();
}
static PropReg c23({"C23", "model_checking",
  "every sequence of 2 (thorough 3; 3 and 4 for a third of the configurations) of writes with equal and different contents, refresh, moves between two encrypted storages with different keys and two clear ones, upload, download, background steps, restarts and crashes, for every combination of compression, region size, checksums and cloud use, from three starting states. At every file change no file of an encrypted storage, local, cloud or temporary, contains any 8 consecutive bytes of an event key or value; after every action no 12 bytes of ciphertext appear twice in different or the same file (thus no initialisation vector or region repeats), and no file of a partition placed in an encrypted storage exists in a clear one. 37 wrong keys times all configurations and three states: everything read is correct or fails, and with the right key everything is there again",
  {"the operating system's random source gives a new seed for each open (modelled)", "clouds are the built-in mock provider and the S3 provider with a modelled server"},
  [](bool th, std::vector<Family>& f) {
    // the cloud alphabet has 13 actions, the other 11
    auto cf = cfgs(); auto add = [&](const char* name, int len, bool all) {
      f.push_back({name, cf.size() * 3 * ipow(13, len), [len, all](Ctx& c, uint64_t i) { static auto cf = cfgs(); auto& x = cf[i % cf.size()]; if (!x.cloud && i / cf.size() / 3 >= ipow(11, len)) return; if (!all && (x.crc || (x.comp != 0) == (x.region == 20) || x.comp == 2)) return; secrecy(c, i, len); }}); };
    add("secrecy", th ? 3 : 2, true); add("secrecy, longer", th ? 4 : 3, false);
    f.push_back({"wrong key", cf.size() * wrong_keys().size() * 3, wrong});
  }});

// C01 ordered map, C02 seeks
#include "db.h"
#include <string.h>
#include <algorithm>
#include <inttypes.h>

static const uint64_t MAXI = UINT64_MAX;
static std::string num(uint64_t v) { return strf("%" PRIu64, v); }

// ------------------------------------------------------------------ C01
// A: all operation sequences over a small alphabet
static std::vector<Ev> alphabetA() {
  std::vector<Ev> a;
  for (uint64_t id : {(uint64_t)0, (uint64_t)9, (uint64_t)10, (uint64_t)0x80000005ull, (uint64_t)0x100000000ull, (uint64_t)1 << 63, MAXI - 1, MAXI})
    { a.push_back(put(id, "v")); a.push_back(del(id)); }
  a.push_back(put(9, "K1", "a")); a.push_back(put(9, "K2", "ab")); a.push_back(put(9, "K3", "b")); a.push_back(del(9, "a"));
  return a;
}
static void runA(Ctx& c, uint64_t i, int len) {
  auto al = alphabetA(); Db db; fs::reset();
  bool wal = (i & 1); if (!wal) db.pre.push_back("set wal to false");
  if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; uint64_t x = i; std::string d;
  for (int k = 0; k < len; k++) {
    Ev e = al[x % al.size()]; x /= al.size();
    if (!e.del) e.val += num(k);
    c.note("write %s", show(e).c_str()); d += show(e) + " ";
    db.must_write({e}); upd(m, {e});
    check_scan(db, m, "scan differs from the ordered map");
    c.state(hash_model(m));
  }
  if (i % 4001 == 7) c.sample(d + "-> " + show(m));
  c.exec();
}
// A2: every batch (several operations in one call)
static void runA2(Ctx& c, uint64_t i) {
  auto al = alphabetA(); Db db; fs::reset(); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; std::vector<Ev> pre = {put(9, "old"), put(9, "oldk", "ab"), put(1ull << 63, "h")};
  db.must_write(pre); upd(m, pre);
  std::vector<Ev> b; uint64_t x = i; for (int k = 0; k < 3; k++) { Ev e = al[x % al.size()]; x /= al.size(); if (!e.del) e.val += num(k); b.push_back(e); }
  c.note("batch %s", show(b).c_str());
  db.must_write(b); upd(m, b); check_scan(db, m, "scan after a batch differs from the ordered map"); c.state(hash_model(m)); c.exec();
}
// B: all insertion orders of n ids for several distances
static const std::vector<std::vector<uint64_t>>& profiles() {
  static std::vector<std::vector<uint64_t>> p;
  if (p.empty()) {
    p.push_back({0, 1, 2, 3, 4, 5, 6});
    p.push_back({0, 0x7fffffff, 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x100000001ull});
    p.push_back({0, 1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 1ull << 40, 1ull << 62});
    p.push_back({5, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, (1ull << 63) + (1ull << 32), MAXI - (1ull << 32), MAXI - 1});
    p.push_back({0, 1, 1ull << 63, (1ull << 63) + 1, MAXI - 2, MAXI - 1, MAXI});
  }
  return p;
}
static const char* intervals[] = {"10", "3000000", "4611686018427387904", "9223372036854775807"};
static uint64_t fact(int n) { uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static void runB(Ctx& c, uint64_t i) {
  uint64_t x = i; auto ids = profiles()[x % profiles().size()]; x /= profiles().size(); const char* iv = intervals[x % 4]; x /= 4;
  std::vector<uint64_t> pool = ids, order; for (int n = (int)ids.size(); n > 0; n--) { order.push_back(pool[x % n]); pool.erase(pool.begin() + x % n); x /= n; }
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back(std::string("set interval to ") + iv);
  if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; c.note("interval %s", iv);
  for (uint64_t id : order) { Ev e = put(id, "v" + num(id)); c.note("write %s", show(e).c_str()); db.must_write({e}); upd(m, {e}); }
  check_scan(db, m, "scan differs after out-of-order inserts"); c.state(i * 2654435761u + 17);
  for (uint64_t id : order) { Key k{id, ""}; check_scan(db, m, "seek differs after out-of-order inserts", &k); }
  Ev d = del(order[3]); db.must_write({d}); upd(m, {d}); check_scan(db, m, "scan differs after delete"); c.exec();
}
// C: page fills around split boundaries and one more operation at every position
static const int NORD = 6;
static std::vector<uint64_t> fill_order(int kind, int n) {
  std::vector<uint64_t> v; 
  switch (kind) {
    case 0: for (int i = 0; i < n; i++) v.push_back(i); break;
    case 1: for (int i = n - 1; i >= 0; i--) v.push_back(i); break;
    case 2: for (int i = 0; i < n; i += 2) v.push_back(i); for (int i = 1; i < n; i += 2) v.push_back(i); break;
    case 3: for (int a = 0, b = n - 1; a <= b; a++, b--) { v.push_back(a); if (a != b) v.push_back(b); } break;
    case 4: { int mid = n / 2; for (int d = 0; (int)v.size() < n; d++) { if (mid + d < n) v.push_back(mid + d); if (d && mid - d >= 0) v.push_back(mid - d); } break; }
    default: { int bits = 1; while ((1 << bits) < n) bits++; for (int i = 0; i < 1 << bits; i++) { int r = 0; for (int b = 0; b < bits; b++) if (i >> b & 1) r |= 1 << (bits - 1 - b); if (r < n) v.push_back(r); } }
  }
  return v;
}
static const int fillC[] = {1, 2, 3, 507, 508, 509, 511, 512, 513, 514, 516, 1016, 1019, 1020, 1021, 1024, 1027};
static void fillDb(Db& db, Model& m, const std::vector<uint64_t>& order, uint64_t base, uint64_t stride, const char* tag = "v") {
  std::vector<Ev> b;
  for (uint64_t k : order) { b.push_back(put(base + k * stride, tag + num(k))); if (b.size() == 64) { db.must_write(b); upd(m, b); b.clear(); } }
  if (!b.empty()) { db.must_write(b); upd(m, b); }
}
static void runC(Ctx& c, uint64_t i) {
  int n = fillC[i % 17]; int kind = (i / 17) % NORD;
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back("set interval to 1000000"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; c.note("fill %d kind %d stride 2", n, kind); fillDb(db, m, fill_order(kind, n), 1, 2);
  check_scan(db, m, "scan differs after page fill");
  // then insert between, replace and delete at every 1st..nth position; re-checked after each change
  int step = n > 100 ? (c.thorough ? 1 : 7) : 1;
  std::set<int> pos; for (int p = 0; p <= n; p += step) pos.insert(p); for (int p : {0, 1, 253, 254, 507, 508, 509, 510, 511, 512, 513, 1015, 1016, 1017, n - 1, n}) if (p >= 0 && p <= n) pos.insert(p);
  for (int p : pos) {
    Ev e = put(2 * (uint64_t)p, "ins"); db.must_write({e}); upd(m, {e});
    check_scan(db, m, "scan differs after an insert between page positions");
    if (p < n) { Ev r = put(1 + 2 * (uint64_t)p, "rep"); db.must_write({r}); upd(m, {r}); if (p % 3 == 0) { Ev d = del(1 + 2 * (uint64_t)p); db.must_write({d}); upd(m, {d}); } check_scan(db, m, "scan differs after a replace or delete at a page position"); }
    c.state(i * 100003 + p + 1);
  }
  c.exec();
}
// D: far apart ids within one partition, several pages
static const uint64_t strides[] = {1, 1ull << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 3ull << 31, 1ull << 33, 1ull << 40, 1ull << 50, (1ull << 53) - 1};
static void runD(Ctx& c, uint64_t i) {
  uint64_t st = strides[i % 13]; int kind = (i / 13) % NORD; int n = (i / 13 / NORD) % 2 ? 1030 : 600; int iv = 2 + (i / 13 / NORD / 2) % 2;
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back(std::string("set interval to ") + intervals[iv]); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; c.note("stride %" PRIu64 " n %d kind %d interval %s", st, n, kind, intervals[iv]); fillDb(db, m, fill_order(kind, n), 3, st);
  check_scan(db, m, "scan differs for far apart ids");
  for (int p = 0; p < n; p += 13) { Key k{3 + p * st, ""}; check_scan(db, m, "seek differs for far apart ids", &k, 3); Ev e = p & 1 ? del(k.first) : put(k.first, "r"); db.must_write({e}); upd(m, {e}); }
  check_scan(db, m, "scan differs after replacing far apart ids"); c.state(i + 1); c.exec();
}
// E: keys
static const std::vector<std::string>& keys() {
  static std::vector<std::string> k;
  if (k.empty()) {
    std::string al; for (int ch : {0x00, 0x01, 0x7f, 0x80, 0xff}) al += (char)ch;
    k.push_back("");
    for (char a : al) k.push_back(std::string(1, a));
    for (char a : al) for (char b : al) k.push_back(std::string{a, b});
    for (char a : al) for (char b : al) k.push_back(std::string{a, 'x', b});
    for (int n : {7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 129, 200, 254, 255}) { k.push_back(std::string(n, 'k')); k.push_back(std::string(n, (char)0xfe)); k.push_back(std::string(n - 1, 'k') + "l"); }
    std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end());
  }
  return k;
}
static void runE(Ctx& c, uint64_t i) {
  auto& ks = keys(); size_t n = ks.size(); size_t first = i % n; int kind = (i / n) % 3;
  Db db; fs::reset(); if (kind != 1) db.pre.push_back("set wal to false"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  // one id: first key, then all the others in three orders; neighbours with the same key at other ids
  Model m; std::vector<size_t> o; for (size_t k = 0; k < n; k++) if (k != first) o.push_back(k);
  if (kind == 1) std::reverse(o.begin(), o.end()); if (kind == 2) std::rotate(o.begin(), o.begin() + o.size() / 2, o.end());
  std::vector<Ev> b = {put(5, "first", ks[first])}; db.must_write(b); upd(m, b); b.clear();
  for (size_t k : o) b.push_back(put(5, "v" + num(k), ks[k]));
  b.push_back(put(4, "", ks[first])); b.push_back(put(6, "x", ks[first]));
  db.must_write(b); upd(m, b); c.note("first key %s, order %d", quote(ks[first]).c_str(), kind);
  check_scan(db, m, "scan differs for keys under one id");
  Key s{5, ks[first]}; check_scan(db, m, "seek differs for keys under one id", &s);
  b = {del(5, ks[first])}; db.must_write(b); upd(m, b); check_scan(db, m, "scan differs after deleting a key");
  b = {put(5, "again", ks[first])}; db.must_write(b); upd(m, b); check_scan(db, m, "scan differs after re-inserting a key"); c.state(i + 1); c.exec();
}
// F: value and key sizes around the memory page size
static const int ksz[] = {0, 1, 2, 17, 254, 255};
static void runF(Ctx& c, uint64_t i) {
  int ks = ksz[i % 6]; int v = (int)((i / 6) % 96); int mode = (i / 6 / 96) % 3;
  // page of 4096 bytes: place the event so that it ends near the end of the page
  Db db; fs::reset(); db.pre.push_back("set mm_page_size to 8192"); if (mode == 1) db.pre.push_back("set wal_crc to true"); if (mode == 2) db.pre.push_back("set wal to false"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; std::string key(ks, 'q');
  auto pattern = [](size_t n, int s) { std::string r(n, 0); for (size_t k = 0; k < n; k++) r[k] = (char)(k * 31 + s); return r; };
  std::vector<Ev> b = {put(1, pattern(3950 - 2 * 255 + v, 1), key)};   // page table takes about half of the page
  b.push_back(put(2, pattern(v, 2), key)); b.push_back(put(3, pattern(7900 - ks + v, 3), key)); b.push_back(put(4, "t", key)); b.push_back(put(4, "", key + (ks < 255 ? "z" : "")));
  c.note("key size %d, value variation %d, mode %d", ks, v, mode);
  for (auto& e : b) if (db.write({e})) upd(m, {e}); else if (e.val.size() < 7000) fail("write failed", "%s", db.err.c_str());
  check_scan(db, m, "scan differs for sizes near the memory page size");
  if (db.write(b)) upd(m, b);
  check_scan(db, m, "scan differs for sizes near the memory page size");
  db.close(); if (mode != 2) { if (!db.open()) fail("reopen failed", "%s", db.err.c_str()); check_scan(db, m, "scan after reopen differs for sizes near the memory page size"); }
  c.state(i + 1); c.exec();
}
// G: deletes: every subset of n stored events deleted, across page boundaries too
static void runG(Ctx& c, uint64_t i) {
  int lay = i % 3; uint64_t mask = i / 3;
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back(lay == 0 ? "set interval to 1000000" : "set interval to 4"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; int n = lay == 2 ? 10 : 514; fillDb(db, m, fill_order(0, n), 0, 1);
  std::vector<Ev> b; for (int k = 0; k < 10; k++) if (mask >> k & 1) b.push_back(del(lay == 2 ? k : 503 + k)); 
  if (!b.empty()) { db.must_write(b); upd(m, b); }
  check_scan(db, m, "scan differs after deletes"); Key k{lay == 2 ? 0u : 503u, ""}; check_scan(db, m, "seek differs after deletes", &k);
  c.state(i + 1); c.exec();
}

static PropReg c01({"C01", "model_checking",
  "every sequence of single-event writes of length 3 (thorough: 4) over 20 operations with ids around 0, 2^31, 2^32, 2^63 and 2^64 and several keys, every 3-operation batch over the same alphabet, every insertion order of 7 ids for 5 distance profiles and 4 partition intervals, page fills around the split sizes in 6 orders with an insert, replace and delete at each position, far-apart ids in multi-page tables, key sets with prefixes and 0x00/0xff bytes, and event sizes around the memory page size; after every step the full scan is compared with a sorted map. A state is a distinct reached map (or case, where each case has one).",
  {"single client thread (threads are covered by C16)", "in-memory file system; ids, keys and sizes from the listed alphabets"},
  [](bool th, std::vector<Family>& f) {
    uint64_t a = alphabetA().size(); int len = th ? 4 : 3; uint64_t n = 1; for (int i = 0; i < len; i++) n *= a;
    f.push_back({"sequences", n, [len](Ctx& c, uint64_t i) { runA(c, i, len); }});
    f.push_back({"batches", a * a * a, runA2});
    f.push_back({"orders", profiles().size() * 4 * fact(7), runB});
    f.push_back({"pages", 17 * NORD, runC});
    f.push_back({"far", 13 * NORD * 2 * 2, runD});
    f.push_back({"keys", keys().size() * 3, runE});
    f.push_back({"sizes", 6 * 96 * 3, runF});
    f.push_back({"deletes", 3 * 1024, runG});
  }});

// ------------------------------------------------------------------ C02
// small scope: every event of a universe is absent / in file / in file and replaced / in file and deleted /
// only in memory, for several storage layouts, partition intervals and region sizes; every seek
struct Lay { int storage; int interval; int region; };
static void layout(Ctx& c, Db& db, Model& m, const std::vector<Key>& U, uint64_t code, int storage, const std::string& interval, int region) {
  db.pre.push_back("set interval to " + interval); db.pre.push_back("set wal to false");
  if (!db.open()) fail("open failed", "%s", db.err.c_str());
  bool cloud = storage >= 2;
  if (cloud) { db.must(create_cloud(storage == 2)); db.must("alter storage main set (cloud 'cl')"); if (storage == 2) db.must("alter storage main set (cloud_drop_local false)"); }
  db.must("alter storage main set (region_size " + num(region) + ")");
  std::vector<Ev> file, mem; uint64_t x = code;
  for (auto& k : U) { int s = x % 5; x /= 5; if (s == 1 || s == 2 || s == 3) file.push_back(put(k.first, "f" + show_key(k), k.second)); if (s == 2) mem.push_back(put(k.first, "m", k.second)); if (s == 3) mem.push_back(del(k.first, k.second)); if (s == 4) mem.push_back(put(k.first, "n", k.second)); }
  if (!file.empty()) { db.must_write(file); upd(m, file); }
  if (storage > 0) { db.must("checkpoint"); for (int g = 0; g < 200; g++) db.must("service"); }
  if (!mem.empty()) { db.must_write(mem); upd(m, mem); }
  c.note("storage %d interval %s region %d file %s mem %s", storage, interval.c_str(), region, show(file).c_str(), show(mem).c_str());
}
static void seeks(Ctx& c, Db& db, const Model& m, const std::vector<Key>& at, const std::string& sig) {
  check_scan(db, m, sig + ": full scan differs");
  for (auto& k : at) { check_scan(db, m, sig + ": seek differs", &k); c.want("seeks"); }
}
static std::vector<Key> U1() { return {{1, ""}, {2, "a"}, {2, "c"}, {3, ""}, {6, ""}, {7, "b"}}; }
static std::vector<Key> S1() { std::vector<Key> v; for (uint64_t i = 0; i < 10; i++) { v.push_back({i, ""}); if (i == 2 || i == 7) for (const char* k : {"a", "aa", "b", "bb", "c", "d"}) v.push_back({i, k}); } v.push_back({MAXI, ""}); v.push_back({1ull << 63, "z"}); return v; }
static std::vector<Key> U2() { return {{0, ""}, {5, "k"}, {1ull << 32, ""}, {1ull << 63, ""}, {MAXI - 1, ""}, {MAXI, ""}}; }
static std::vector<Key> S2() { std::vector<Key> v; for (auto& k : U2()) { if (k.first) v.push_back({k.first - 1, ""}); v.push_back({k.first, ""}); v.push_back({k.first, "k"}); v.push_back({k.first, "zz"}); if (k.first != MAXI) v.push_back({k.first + 1, ""}); } v.push_back({1ull << 31, ""}); v.push_back({(1ull << 32) + (1ull << 31), ""}); v.push_back({3ull << 62, ""}); return v; }
static const char* iv1[] = {"2", "3", "100"};
static const int rg[] = {1, 60, 100000};
static void runSeek1(Ctx& c, uint64_t i) {
  uint64_t code = i % 15625; i /= 15625; int iv = i % 3; i /= 3; int r = i % 3; i /= 3; int st = i;
  Db db; fs::reset(); Model m; layout(c, db, m, U1(), code, st, iv1[iv], rg[r]); seeks(c, db, m, S1(), "small"); c.state(code * 1000 + iv * 100 + r * 10 + st + 1); c.exec();
  if (code == 7777) c.sample(c.trail);
}
static void runSeek2(Ctx& c, uint64_t i) {
  uint64_t code = i % 15625; i /= 15625; int iv = i % 2; i /= 2; int st = i;
  Db db; fs::reset(); Model m; layout(c, db, m, U2(), code, st, iv ? "9223372036854775807" : "10", 60); seeks(c, db, m, S2(), "extreme ids"); c.state((1ull << 40) + code * 100 + iv * 10 + st); c.exec();
}
// page boundaries in memory: all seeks
static void runSeek3(Ctx& c, uint64_t i) {
  int n = fillC[i % 17]; int kind = (i / 17) % NORD; int delrun = (i / 17 / NORD) % 3;
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back("set interval to 1500"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  Model m; fillDb(db, m, fill_order(kind, n), 1, 2);
  if (delrun) { int a = delrun == 1 ? 500 : 507, b = delrun == 1 ? 520 : 1030; std::vector<Ev> d; for (int k = a; k < b && k < n; k++) d.push_back(del(1 + 2 * (uint64_t)k)); if (!d.empty()) { db.must_write(d); upd(m, d); } }
  c.note("fill %d kind %d delrun %d", n, kind, delrun);
  for (uint64_t s = 0; s <= 2 * (uint64_t)n + 2; s++) { Key k{s, ""}; check_scan(db, m, "pages: seek differs", &k, 3); c.want("seeks"); }
  for (uint64_t s : {0, 1014, 1015, 1016, 1017, 1018, 2030}) { Key k{(uint64_t)s, ""}; check_scan(db, m, "pages: seek differs", &k); }
  c.state((2ull << 40) + i); c.exec();
}
// merged: file and memory, many regions, every seek
static void runSeek4(Ctx& c, uint64_t i) {
  int r = i % 4; int pat = (i / 4) % 6; int st = 1 + (i / 24) % 3;
  static const int rs[] = {1, 100, 500, 4000};
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back("set interval to 200"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  if (st >= 2) { db.must(create_cloud(st == 2)); db.must("alter storage main set (cloud 'cl')"); if (st == 2) db.must("alter storage main set (cloud_drop_local false)"); }
  db.must("alter storage main set (region_size " + num(rs[r]) + ")");
  Model m; fillDb(db, m, fill_order(0, 150), 10, 3);
  db.must("checkpoint"); for (int g = 0; g < 60; g++) db.must("service");
  std::vector<Ev> b; for (int k = 0; k < 150; k++) { uint64_t id = 10 + 3 * (uint64_t)k;
    if (pat == 1 && k % 7 == 3) b.push_back(del(id)); if (pat == 2 && k % 5 == 0) b.push_back(put(id + 1, "n")); if (pat == 3 && k >= 40 && k < 75) b.push_back(del(id)); if (pat == 4 && k % 2) b.push_back(put(id, "rep")); if (pat == 5) b.push_back(put(id - 1, "w", "k")); }
  if (!b.empty()) { db.must_write(b); upd(m, b); }
  c.note("region %d pattern %d storage %d", rs[r], pat, st);
  check_scan(db, m, "regions: scan differs");
  for (uint64_t s = 0; s <= 480; s++) for (const char* kk : {"", "m"}) { Key k{s, kk}; check_scan(db, m, "regions: seek differs", &k, 4); c.want("seeks"); }
  c.state((3ull << 40) + i); c.exec();
}
// three sources: file, a second memtable left by a failed refresh, and memory
static void failed_refresh(Db& db, int stage) { db.must(strf("set error_refresh_%d to true", stage)); std::string o = db.must("show partitions debug"); J j = parse_json(o); for (size_t i = 0; i < j.size(); i++) db.exec(strf("refresh partition %" PRIu64, j[i]["min"].u)); db.must(strf("set error_refresh_%d to false", stage)); }
static const struct { int file, prev, mem; } three[] = {   // 0 nothing, 1 put, 2 delete
  {0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, 2, 0}, {1, 0, 1}, {1, 0, 2}, {0, 1, 1}, {0, 1, 2}, {1, 1, 1}, {1, 1, 2}, {1, 2, 1} };
static const int NTHREE = sizeof three / sizeof *three;
static std::vector<Key> U3() { return {{1, ""}, {2, "a"}, {2, "c"}, {5, ""}}; }
static void runSeek5(Ctx& c, uint64_t i, bool cloud) {
  uint64_t code = i % ((uint64_t)NTHREE * NTHREE * NTHREE * NTHREE); i /= (uint64_t)NTHREE * NTHREE * NTHREE * NTHREE; int iv = i % 2; i /= 2; int r = i % 2; i /= 2; int stage = 1 + (cloud ? code % 3 : i % 3);
  Db db; fs::reset(); Model m; db.pre.push_back("set wal to false"); db.pre.push_back(iv ? "set interval to 100" : "set interval to 2"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  if (cloud) { db.must(create_cloud(false)); db.must("alter storage main set (cloud 'cl')"); }
  db.must(r ? "alter storage main set (region_size 100000)" : "alter storage main set (region_size 30)");
  std::vector<Ev> src[3]; uint64_t x = code;
  for (auto& k : U3()) { auto& t = three[x % NTHREE]; x /= NTHREE; const int w[3] = {t.file, t.prev, t.mem}; for (int n = 0; n < 3; n++) if (w[n] == 1) src[n].push_back(put(k.first, strf("%c", "fpm"[n]), k.second)); else if (w[n] == 2) src[n].push_back(del(k.first, k.second)); }
  c.note("interval %d region %d stage %d file %s second memtable %s memory %s", iv, r, stage, show(src[0]).c_str(), show(src[1]).c_str(), show(src[2]).c_str());
  if (!src[0].empty()) { db.must_write(src[0]); upd(m, src[0]); db.must("refresh partitions between 0 and 1000"); if (cloud) for (int g = 0; g < 12; g++) db.must("service"); }
  if (!src[1].empty()) { db.must_write(src[1]); upd(m, src[1]); failed_refresh(db, stage); }
  if (!src[2].empty()) { db.must_write(src[2]); upd(m, src[2]); }
  std::vector<Key> at; for (uint64_t id = 0; id < 8; id++) { at.push_back({id, ""}); if (id == 2) for (const char* k : {"a", "b", "c", "d"}) at.push_back({id, k}); }
  seeks(c, db, m, at, "second memtable"); c.state((4ull << 40) + code * 100 + iv * 20 + r * 10 + stage + (cloud ? 1ull << 38 : 0)); c.exec();
}
// the same with many pages and regions: every source has one of several patterns
static void runSeek6(Ctx& c, uint64_t i) {
  int pf = i % 5; int pp = (i / 5) % 6; int pm = (i / 30) % 6; int n = (i / 180) % 2 ? 1100 : 512; int cold = (i / 360) % 2;
  Db db; fs::reset(); db.pre.push_back("set wal to false"); db.pre.push_back(cold ? "set interval to 400" : "set interval to 4000"); if (!db.open()) fail("open failed", "%s", db.err.c_str());
  db.must("alter storage main set (region_size 700)"); Model m;
  auto in = [&](int p, int k) { return p == 1 ? true : p == 2 ? k % 3 == 0 : p == 3 ? k >= n / 2 : p == 4 ? k < n / 2 - 1 || k == n - 1 : p == 5 ? k % 4 == 1 || (k > 500 && k < 520) : false; };
  auto go = [&](int p, const char* v, bool dels) { std::vector<Ev> b; for (int k = 0; k < n; k++) if (in(p, k)) { uint64_t id = 10 + 2 * (uint64_t)k; b.push_back(dels ? del(id) : put(id, v)); if (b.size() == 100) { db.must_write(b); upd(m, b); b.clear(); } } if (!b.empty()) { db.must_write(b); upd(m, b); } };
  c.note("%d ids, file pattern %d, second memtable pattern %d, memory pattern %d", n, pf, pp, pm);
  if (pf) { go(pf, "f", false); db.must("refresh partitions between 0 and 10000"); }
  if (pp) { go(pp, "p", pp == 5); failed_refresh(db, 1 + i % 3); }
  if (pm) go(pm, "m", pm == 5);
  check_scan(db, m, "second memtable, pages: scan differs");
  for (uint64_t s = 0; s <= 14 + 2 * (uint64_t)n; s += (s < 40 || (s > 500 && s < 540) || (s > 1000 && s < 1060) || s + 60 > 2 * (uint64_t)n || c.thorough) ? 1 : 7) { Key k{s, ""}; check_scan(db, m, "second memtable, pages: seek differs", &k, 4); c.want("seeks"); }
  c.state((5ull << 40) + i); c.exec();
}
static PropReg c02({"C02", "model_checking",
  "every assignment of {absent, stored, stored and replaced in memory, stored and deleted in memory, memory only} to 6 events (two universes: dense with keys, and spread over the whole id space), times storage layouts (memory only, refreshed, cloud with and without the local copy), partition intervals and region sizes, with a cursor opened at every position around every event; page-boundary tables with a cursor at every position; multi-region files merged with memory with a cursor at every position; every assignment of 13 ways to be stored in the file, in a second memtable left by a failed refresh and in memory (replacements and deletions in each) to 4 events, and page- and region-crossing patterns of these three sources. Each cursor's whole remaining sequence (or its first 3-4 events in the large layouts) is compared with the sorted map. A state is a distinct layout.",
  {"clouds are the built-in mock provider and the S3 provider with a modelled server", "layouts of the stated bounded families"},
  [](bool th, std::vector<Family>& f) {
    (void)th;
    f.push_back({"small", 15625ull * 3 * 3 * 2, runSeek1});
    f.push_back({"cloud", 15625ull * 1 * 1, [](Ctx& c, uint64_t i) { runSeek1(c, i + 15625ull * 9 * (2 + i % 2) + 15625ull * (i % 9)); }});
    f.push_back({"extreme", 15625ull * 2 * 2, runSeek2});
    f.push_back({"pages", 17 * NORD * 3, runSeek3});
    f.push_back({"regions", 4 * 6 * 3, runSeek4});
    uint64_t n3 = (uint64_t)NTHREE * NTHREE * NTHREE * NTHREE;
    f.push_back({"second-memtable", n3 * 2 * 2 * (th ? 3 : 1), [](Ctx& c, uint64_t i) { runSeek5(c, i, false); }});
    f.push_back({"second-memtable-cloud", n3 * (th ? 4 : 1), [](Ctx& c, uint64_t i) { runSeek5(c, i, true); }});
    f.push_back({"second-memtable-pages", 720, runSeek6});
  }});

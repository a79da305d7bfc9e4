#include "world.h"
#include <string.h>
#include <inttypes.h>
#include <algorithm>

const char* layout_name[] = {"plain", "multi", "cloud", "cloud-keep", "pipeline", "mixed"};
std::string Act::name() const {
  switch (k) { case WRITE: return "write " + ::show(batch); case CMD: return cmd; case DROP: return cmd; case REOPEN: return "reopen"; case SVC: return "service..."; case STEP: return "service"; case SCAN: return "scan"; case KILL: return "crash and reopen"; case FAILREF: return cmd; }
  return "?";
}
Act W(const std::vector<Ev>& b) { Act a; a.k = Act::WRITE; a.batch = b; return a; }
Act C(const std::string& c) { Act a; a.cmd = c; return a; }
Act CF(const std::string& c) { Act a; a.cmd = c; a.may_fail = true; return a; }
Act D(uint64_t id) { Act a; a.k = Act::DROP; a.a = id; a.cmd = strf("drop partition if exists %" PRIu64, id); return a; }
Act DR(uint64_t x, uint64_t y) { Act a; a.k = Act::DROP; a.range = true; a.a = x; a.b = y; a.cmd = strf("drop partitions between %" PRIu64 " and %" PRIu64, x, y); return a; }
Act FailRefresh(uint64_t id, int stage) { Act a; a.k = Act::FAILREF; a.a = id; a.b = stage; a.cmd = strf("failing refresh %" PRIu64 " at stage %d", id, stage); return a; }
Act Reopen() { Act a; a.k = Act::REOPEN; return a; }
Act Svc() { Act a; a.k = Act::SVC; return a; }
Act Step() { Act a; a.k = Act::STEP; return a; }
Act Kill() { Act a; a.k = Act::KILL; return a; }
Act Scan() { Act a; a.k = Act::SCAN; return a; }

std::vector<Part> partitions(Db& db) {
  std::string o = db.must("show partitions debug"); J j = parse_json(o); std::vector<Part> v;
  for (size_t i = 0; i < j.size(); i++) { const J& p = j[i]; Part x; x.id = x.min = p["min"].u; x.max = p["max"].u; x.events = p["events"].u; x.storage = p["storage"].s; x.in_storage = p["on_storage"].b; x.in_cloud = p["on_cloud"].b; x.in_memory = p["events_heap"].u > 0; x.raw = p; v.push_back(x); }
  return v;
}
World::World(int layout, const std::vector<std::string>& pre) : lay(layout), extra(pre) {
  db.pre.push_back("set interval to 4");
  for (auto& p : pre) db.pre.push_back(p);
}
std::string create_cloud(bool s3) { return s3 ? "create cloud cl (type 's3', url 'http://s3', login 'login', password 'secret')" : "create cloud cl (type 'mock')"; }
static void layout_commands(Db& db, int lay) {
  db.must("alter storage main set (region_size 40)");
  if (lay == L_MULTI || lay == L_MIXED) {
    db.must("create storage s1 (compression 'zstd', crc true, region_size 30, encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')");
    db.must("create storage s2 (compression 'lz4', region_size 1000)");
  }
  if (lay == L_CLOUD || lay == L_CLOUD_KEEP || lay == L_MIXED) db.must(create_cloud(lay == L_CLOUD_KEEP));
  if (lay == L_CLOUD || lay == L_CLOUD_KEEP) {
    db.must("alter storage main set (cloud 'cl')"); db.must(strf("alter storage main set (cloud_drop_local %s)", lay == L_CLOUD ? "true" : "false"));
    db.must("create storage s1 (compression 'zstd', crc true, region_size 30)"); db.must("create storage s2 (region_size 1000)");
  }
  if (lay == L_MIXED) { db.must("alter storage s1 set (cloud 'cl')"); db.must("alter storage s1 set (cloud_drop_local true)"); }
  if (lay == L_PIPE) { db.must("create storage s1 (compression 'lz4', crc true)"); db.must("create storage s2 (region_size 1000)"); db.must("alter pipeline set main (partitions 2), s1"); }
}
void World::start() {
  static std::map<std::string, fs::Image> cache; std::string key = std::to_string(lay); for (auto& e : db.pre) key += "|" + e;
  fs::clock_frozen = true;
  auto c = cache.find(key);
  if (c == cache.end()) { fs::reset(); if (!db.open()) fail("open failed", "%s", db.err.c_str()); layout_commands(db, lay); db.close(); c = cache.emplace(key, fs::snapshot()).first; }
  fs::restore(c->second); sched::reset_objects();
  if (!db.open()) fail("open failed", "%s", db.err.c_str());
  m.clear(); allowed = {m};
}
Act World::tag(const Act& a, int s) const {
  Act r = a; if (a.k == Act::WRITE) for (auto& e : r.batch) if (!e.del) e.val += strf("@%d", s);
  return r;
}
std::vector<Model> drop_steps(const std::vector<Part>& ps, const Model& m, const Act& a) {
  std::vector<Model> v = {m}; Model cur = m;
  for (auto& p : ps) {
    bool hit = a.range ? (p.min >= a.a && p.max <= a.b) : (a.a >= p.min && a.a <= p.max);
    if (!hit) continue;
    for (auto i = cur.begin(); i != cur.end();) if (i->first.first >= p.min && i->first.first <= p.max) i = cur.erase(i); else ++i;
    v.push_back(cur);
  }
  return v;
}
void World::settle() { for (int i = 0; i < 40; i++) db.must("service"); }
void World::reopen(const std::string& sig) {
  db.close(); check_no_handles(sig);
  if (!db.open()) fail(sig + ": open failed", "%s", db.err.c_str());
}
void World::check(const std::string& sig, const Key* from) { check_scan(db, m, sig + ": scan differs", from); }
bool World::act(const Act& a0, const std::string& sig) {
  Act a = tag(a0, step++);
  if (a.k == Act::CMD && (a.cmd.compare(0, 7, "upload ") == 0 || a.cmd.compare(0, 5, "move ") == 0)) {
    // upload of a partition which has no file is an error by design; move into the storage the
    // partition is already in ends with such upload
    for (auto& p : partitions(db)) if (!p.in_storage && !p.in_cloud) a.may_fail = true;
  }
  if (g_ctx) g_ctx->note("%s", a.name().c_str());
  bool ok = true;
  switch (a.k) {
    case Act::WRITE: {
      Model n = m; upd(n, a.batch); allowed = {m, n};
      ok = db.write(a.batch); if (ok) m = n;
      break;
    }
    case Act::DROP: {
      auto v = drop_steps(partitions(db), m, a); allowed = v;
      ok = db.exec(a.cmd); if (ok) m = v.back();
      break;
    }
    case Act::CMD: ok = db.exec(a.cmd); break;
    case Act::REOPEN: reopen(sig); break;
    case Act::SVC: settle(); break;
    case Act::STEP: ok = db.exec("service"); break;
    case Act::SCAN: check(sig); break;
    case Act::FAILREF: {
      std::string v = strf("set error_refresh_%d to ", (int)a.b); db.must(v + "true"); bool r = db.exec(strf("refresh partition if exists %" PRIu64, a.a)); db.must(v + "false"); (void)r;
      break;
    }
    case Act::KILL: {
      fs::Image im = fs::snapshot(); db.close(); fs::restore(im); sched::reset_objects();
      if (!db.open()) fail(sig + ": open after a crash failed", "%s", db.err.c_str());
      break;
    }
  }
  allowed = {m};
  if (!ok && !a.may_fail) fail(sig + ": " + (a.k == Act::WRITE ? "write" : a.cmd) + " failed", "%s: %s", a.name().c_str(), db.err.c_str());
  return ok;
}
std::vector<std::string> leftovers() {
  std::vector<std::string> v;
  for (auto& f : fs::listing()) { auto& n = f.first; for (const char* s : {".incomplete", ".complete"}) { size_t l = strlen(s); if (n.size() > l && n.compare(n.size() - l, l, s) == 0) v.push_back(n); } }
  return v;
}
void check_no_handles(const std::string& sig) {
  if (fs::open_handles()) { std::string l = fs::handle_list(); fs::drop_handles(); fail(sig + ": files left open after close", "%s", l.c_str()); }
}
static uint64_t hash_models(const std::vector<Model>& v) { uint64_t h = 17; for (auto& m : v) h = (h ^ hash_model(m)) * 0x9E3779B97F4A7C15ull; return h; }

void capture(World& w, bool torn, bool power, std::vector<Cap>& out, const std::function<void()>& f) {
  std::unordered_set<uint64_t> seen;
  fs::set_recorder([&](const fs::Point& p, const fs::Image& im) {
    uint64_t h = im.hash(power) ^ hash_models(w.allowed); if (!seen.insert(h).second) return;
    out.push_back({im, w.allowed, strf("before %s %s%s", fs::op_name[p.op], p.path.c_str(), p.what.empty() ? "" : (" " + p.what).c_str())});
  }, torn);
  try { f(); } catch (...) { fs::clear_recorder(); throw; }
  fs::clear_recorder();
  fs::Image im = fs::snapshot(); uint64_t h = im.hash(power) ^ hash_models(w.allowed); if (seen.insert(h).second) out.push_back({im, w.allowed, "after the last call"});
}
void standard_after(World& w, const Model&, const std::string& sig, const Act* repeat) {
  // the database must be fully usable: repeat the interrupted action, write, refresh, trim the log, reopen
  if (repeat) { if (repeat->k == Act::WRITE || repeat->k == Act::DROP || repeat->k == Act::CMD || repeat->k == Act::SVC || repeat->k == Act::STEP) w.act(*repeat, sig + ", repeated"); w.check(sig + ", repeated"); }
  w.act(W({put(1, "after"), put(6, "after"), del(2, "a")}), sig + ", write afterwards"); w.check(sig + ", write afterwards");
  w.act(C("refresh partitions between 0 and 100"), sig + ", refresh afterwards"); w.settle(); w.check(sig + ", refresh afterwards");
  w.act(C("debug 'wal_create'"), sig); w.act(C("debug 'wal_gc'"), sig); w.check(sig + ", log trimmed afterwards");
  w.act(W({put(2, "after2")}), sig + ", second write afterwards");
  w.reopen(sig + ", reopen afterwards"); w.check(sig + ", reopen afterwards");
  auto l = leftovers(); if (!l.empty()) fail(sig + ": leftover files", "%s", l[0].c_str());
}
static std::unordered_set<uint64_t> g_done;
void explore(Ctx& c, const Crash& k, std::vector<Cap>& caps, int depth) {
  for (auto& cap : caps) {
    std::vector<fs::Image> imgs;
    if (!k.power) imgs.push_back(cap.img);
    else {
      auto u = fs::unflushed(cap.img);
      for (int v = 0; v < fs::L_COUNT; v++) { if (u.empty() && v) break; imgs.push_back(fs::lose(cap.img, v)); }
      if (u.size() >= 2 && u.size() <= 4) for (uint32_t mask = 1; mask + 1 < (1u << u.size()); mask++) imgs.push_back(fs::lose_mask(cap.img, mask));
    }
    for (size_t vi = 0; vi < imgs.size(); vi++) {
      fs::Image& im = imgs[vi];
      uint64_t h = (im.hash(k.power) ^ hash_models(cap.allowed)) * 31 + depth * 7 + k.lay + k.salt * 1000003;
      if (c.verbose ? false : !g_done.insert(h).second) { c.want("crash images seen before"); continue; }
      c.state(h); c.want(depth == k.depth ? "crash images" : "crash images during recovery");
      std::string what = cap.what + (k.power && vi ? strf(" [loss variant %zu]", vi) : "");
      size_t trail = c.trail.size(); c.note("-- %s%s", depth == k.depth ? "crash " : "   and again ", what.c_str());
      fs::restore(im); sched::reset_objects(); c.exec();
      World w(k.lay, k.extra); w.allowed = cap.allowed; w.step = 50;
      std::vector<Cap> next; bool ok = false;
      if (depth > 1) capture(w, k.torn, k.power, next, [&] { ok = w.db.open(); });
      else ok = w.db.open();
      if (!ok) fail(k.sig + ": open after the crash failed", "%s (%s)\nfiles:\n%s", w.db.err.c_str(), what.c_str(), im.list().c_str());
      std::vector<std::pair<Key, std::string>> got;
      if (!w.db.scan(&got)) fail(k.sig + ": read after the crash failed", "%s (%s)", w.db.err.c_str(), what.c_str());
      bool match = false; std::string d;
      for (auto& m : cap.allowed) { std::string x = diff(m, got); if (x.empty()) { match = true; w.m = m; break; } d += x + "; "; }
      if (!match) fail(k.sig + ": contents after the crash differ", "%s (%s)\nfiles:\n%s", d.c_str(), what.c_str(), im.list().c_str());
      w.allowed = {w.m};
      std::vector<uint64_t> copies; Model recovered = w.m;
      if (k.lay == L_CLOUD || k.lay == L_CLOUD_KEEP || k.lay == L_MIXED) for (auto& p : partitions(w.db)) if (p.in_storage && p.in_cloud) copies.push_back(p.min);
      if (k.opened) k.opened(w);
      if (k.after) k.after(w, w.m);
      w.db.close();
      if (!copies.empty()) {     // a partition in both places: the cloud copy must be as good as the local one
        c.want("cloud copies compared"); c.note("   cloud copies"); fs::restore(im); sched::reset_objects(); World v(k.lay, k.extra); v.m = recovered; v.allowed = {v.m}; v.step = 50;
        if (!v.db.open()) fail(k.sig + ": open after the crash failed", "%s (%s)", v.db.err.c_str(), what.c_str());
        for (auto id : copies) v.act(C(strf("drop partition %lu on storage", (unsigned long)id)), k.sig + ", local copy dropped");
        v.check(k.sig + ", local copy dropped");
        for (auto id : copies) v.act(C(strf("download partition %lu", (unsigned long)id)), k.sig + ", copy downloaded");
        v.check(k.sig + ", copy downloaded"); v.reopen(k.sig + ", copy downloaded"); v.check(k.sig + ", copy downloaded and reopened"); v.db.close();
      }
      if (!next.empty()) { for (auto& n : next) n.what = what + " / " + n.what; explore(c, k, next, depth - 1); }
      if (!c.verbose) c.trail.resize(trail);
    }
  }
}

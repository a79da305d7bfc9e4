// C16, C17: concurrent clients and workers under a controlled scheduler
#include "world.h"
#include "alpha.h"
#include "race.h"
#include <string.h>
#include <algorithm>
#include <unistd.h>
#include <stdlib.h>
#include <functional>

struct Cop { enum K { WRITE, SCAN, CMD, DROP, CURW } k; std::vector<Ev> b; Key from; bool has_from = false; size_t limit = SIZE_MAX; std::string cmd; bool may_fail = false; uint64_t dmin = 0, dmax = 0; const char* tag = ""; bool drain_close = false; };
static Cop cw(const std::vector<Ev>& b) { Cop c; c.k = Cop::WRITE; c.b = b; return c; }
static Cop cs() { Cop c; c.k = Cop::SCAN; return c; }
static Cop cs(uint64_t from, size_t lim) { Cop c; c.k = Cop::SCAN; c.from = Key(from, ""); c.has_from = true; c.limit = lim; return c; }
static Cop cc(const std::string& s, bool may_fail = false) { Cop c; c.k = Cop::CMD; c.cmd = s; c.may_fail = may_fail; return c; }
static Cop cd(uint64_t a, uint64_t b, bool range) { Cop c; c.k = Cop::DROP; c.dmin = a; c.dmax = b; c.cmd = range ? strf("drop partitions between %lu and %lu", a, b) : strf("drop partition if exists %lu", a); return c; }
// a cursor over everything; the batch is written when the cursor is at its second event
static Cop cu(const std::vector<Ev>& b) { Cop c; c.k = Cop::CURW; c.b = b; return c; }
static std::string show(const Cop& c) { return c.k == Cop::CURW ? "write with an open cursor " + show(c.b) : c.k == Cop::WRITE ? "write " + show(c.b) : c.k == Cop::SCAN ? (c.has_from ? strf("scan from %lu limit %zu", c.from.first, c.limit) : "scan") : c.cmd; }
typedef std::vector<Cop> Prog;

// what happened: one record per finished or unfinished operation
struct Rec { const Cop* c; int client; uint64_t start = 0, end = UINT64_MAX; bool ok = false, done = false; std::string err; std::vector<std::pair<Key, std::string>> got; std::vector<Ev> written; bool is_final = false; };
static const uint64_t IV = 4;
static uint64_t part_of(uint64_t id) { return id / IV; }

// ---- per-partition linearizability: effects and observations on one partition
struct POp { uint64_t start, end; int kind; /*0 write 1 clear 2 read*/ std::vector<Ev> b; std::vector<std::pair<Key, std::string>> got; Key from; bool has_from = false, prefix = false, optional = false; std::string name; int whole = -1; };
static bool lin(std::vector<POp>& ops, uint64_t used, Model& m, size_t left, std::set<std::pair<uint64_t, uint64_t>>& seen) {
  if (!left) return true;
  if (!seen.insert({used, hash_model(m)}).second) return false;
  uint64_t mn = UINT64_MAX; for (size_t i = 0; i < ops.size(); i++) if (!(used >> i & 1) && !ops[i].optional && ops[i].end < mn) mn = ops[i].end;
  for (size_t i = 0; i < ops.size(); i++) {
    if (used >> i & 1 || ops[i].start > mn) continue;
    auto& o = ops[i];
    if (o.kind == 2) {
      auto it = o.has_from ? m.lower_bound(o.from) : m.begin(); size_t j = 0; bool eq = true;
      for (; it != m.end() && j < o.got.size(); ++it, ++j) if (it->first != o.got[j].first || it->second != o.got[j].second) { eq = false; break; }
      if (!eq || j < o.got.size() || (it != m.end() && !o.prefix)) continue;
      if (lin(ops, used | 1ull << i, m, left - (o.optional ? 0 : 1), seen)) return true;
    } else {
      Model s = m; if (o.kind == 1) m.clear(); else upd(m, o.b);
      if (lin(ops, used | 1ull << i, m, left - (o.optional ? 0 : 1), seen)) return true;
      m = s;
    }
  }
  return false;
}
static std::string show(const POp& o) {
  std::string s = strf("[%lu..%s] ", o.start, o.end == UINT64_MAX ? "-" : std::to_string(o.end).c_str()) + o.name + (o.kind == 0 ? " " + show(o.b) : "");
  if (o.kind == 2) { s += " ->"; for (auto& g : o.got) s += " " + show_key(g.first) + "=" + quote(g.second); if (o.got.empty()) s += " nothing"; if (o.has_from) s += " (from " + show_key(o.from) + ")"; } return s;
}
// empty string if the history has an explanation
static std::string explain(const std::vector<Rec>& h, const Model& init) {
  std::set<uint64_t> parts; for (auto& e : init) parts.insert(part_of(e.first.first));
  for (auto& r : h) { for (auto& e : r.written) parts.insert(part_of(e.id)); for (auto& g : r.got) parts.insert(part_of(g.first.first)); }
  for (auto& r : h) if (r.c->k == Cop::SCAN || r.is_final) for (size_t i = 1; i < r.got.size(); i++) if (!(r.got[i - 1].first < r.got[i].first)) return "events out of order or twice in " + show(*r.c);
  for (uint64_t p : parts) {
    std::vector<POp> ops;
    for (auto& r : h) {
      POp o; o.start = r.start; o.end = r.end; o.name = strf("client %d ", r.client) + show(*r.c);
      if (r.c->k == Cop::WRITE || r.c->k == Cop::CURW) { if (r.done && !r.ok) continue; o.kind = 0; for (auto& e : r.written) if (part_of(e.id) == p) o.b.push_back(e); if (o.b.empty()) continue; }
      else if (r.c->k == Cop::DROP) { if (r.done && !r.ok) continue; bool hit = r.c->cmd.find("partitions") != std::string::npos ? p * IV >= r.c->dmin && p * IV + IV - 1 <= r.c->dmax : part_of(r.c->dmin) == p; if (!hit) continue; o.kind = 1; o.optional = !r.done; }
      else if (r.c->k == Cop::SCAN || r.is_final) {
        if (!r.done || !r.ok) continue; o.kind = 2;
        if (r.c->has_from) { if (part_of(r.c->from.first) > p) continue; if (part_of(r.c->from.first) == p) { o.has_from = true; o.from = r.c->from; } }
        bool cut = r.got.size() >= r.c->limit; uint64_t last = r.got.empty() ? 0 : part_of(r.got.back().first.first);
        if (cut && p > last) continue; o.prefix = cut && p == last;
        for (auto& g : r.got) if (part_of(g.first.first) == p) o.got.push_back(g);
      } else continue;
      ops.push_back(o);
    }
    Model m; for (auto& e : init) if (part_of(e.first.first) == p) m.insert(e);
    std::string init_s = show(m);
    std::set<std::pair<uint64_t, uint64_t>> seen; if (ops.size() > 60) return "harness: too many operations";
    size_t need = 0; for (auto& o : ops) if (!o.optional) need++;
    if (!lin(ops, 0, m, need, seen)) { std::string s = strf("no order of the operations on partition %lu explains what was read; at first %s\n", p * IV, init_s.c_str()); for (auto& o : ops) s += "    " + show(o) + "\n"; return s; }
  }
  return "";
}

struct Scn {
  std::string name; int lay = 0; int state = 0; int workers = 0, uploaders = 0; std::vector<std::string> pre; std::vector<std::string> setup; std::vector<Prog> cl; int bound = 1; bool close_racing = false; bool serial = false; uint64_t shards = 1; bool crash = false;
};
static const std::vector<Ev>& base_events() { static std::vector<Ev> v = {put(1, "a"), put(2, "b"), put(5, "c"), put(9, "d")}; return v; }
// states: 0 empty, 1 in files, 2 in memory only, 3 in files with changes in memory
static void prepare(const Scn& s, Db& db, Model& m) {
  static std::map<std::string, std::pair<fs::Image, Model>> cache; std::string key = strf("%d|%d|%d", s.lay, s.state, s.serial); for (auto& x : s.pre) key += "|" + x;
  fs::clock_frozen = true; auto c = cache.find(key);
  std::vector<std::string> pre = s.pre; if (s.serial) { pre.push_back("set serial to true"); }
  if (c == cache.end()) {
    World w(s.lay, pre); w.start();
    if (s.state == 1 || s.state == 3) { w.act(W(base_events()), "setup"); w.act(C("refresh partitions between 0 and 100"), "setup"); }
    if (s.state == 2) w.act(W(base_events()), "setup");
    if (s.state == 3) w.act(W({put(1, "A"), del(2), put(10, "e")}), "setup");
    Model mm = w.m; w.db.close(); c = cache.emplace(key, std::make_pair(fs::snapshot(), mm)).first;
  }
  fs::restore(c->second.first); sched::reset_objects(); m = c->second.second;
  if (s.workers || s.uploaders) {   // the stored settings win over those given before open
    std::string f = std::string(fs::ROOT) + "/db/config.json", t = fs::read_file(f);
    auto rep = [&](const std::string& n, int v) { size_t p = t.find("\"" + n + "\": 0"); if (p == std::string::npos) fail("harness: setting not found", "%s in %s", n.c_str(), t.c_str()); t.replace(p, n.size() + 5, "\"" + n + "\": " + std::to_string(v)); };
    rep("workers", s.workers); rep("workers_upload", s.uploaders); fs::write_file(f, t);
  }
  db.pre.push_back("set interval to 4"); for (auto& p : pre) db.pre.push_back(p);
  if (s.workers || s.uploaders) { db.pre.push_back(strf("set workers to %d", s.workers)); db.pre.push_back(strf("set workers_upload to %d", s.uploaders)); }
}
static bool only_hangs = false;    // C17: only completion matters
static const Scn* cur_scn = nullptr; static sched::Exec* cur_ex = nullptr; static std::vector<Rec>* cur_hist = nullptr;
static std::string where() {
  std::string s = cur_scn ? "scenario " + cur_scn->name + "\n" : ""; if (cur_scn) for (size_t i = 0; i < cur_scn->cl.size(); i++) { s += strf("  client %zu:", i); for (auto& o : cur_scn->cl[i]) s += " " + show(o) + ";"; s += "\n"; }
  if (cur_hist) for (auto& r : *cur_hist) { s += strf("  %lu..%s client %d %s: %s %s", r.start, r.done ? std::to_string(r.end).c_str() : "-", r.client, show(*r.c).c_str(), !r.done ? "unfinished" : r.ok ? "ok" : "error", r.err.c_str()); for (auto& g : r.got) s += " " + show_key(g.first) + "=" + quote(g.second); s += "\n"; }
  if (cur_ex) { s += "  schedule (deviations from the default at choice):"; for (size_t i = 0; i < cur_ex->trace.size(); i++) if (cur_ex->trace[i].pick) s += strf(" %zu:%d/%d", i, cur_ex->trace[i].pick, cur_ex->trace[i].n); s += "\n"; }
  return s;
}
static void dead_c17(const std::string& w) { fail_now(std::string("deadlock"), w + "\n" + where()); }
static void dead_c16(const std::string& w) { if (g_ctx->verbose) { printf("deadlock (decided by C17): %s\n%s", w.c_str(), where().c_str()); } fflush(stdout); fail_now("deadlock under C16", w + "\n" + where()); }

static uint64_t tick;
static void run_client(Db& db, const Prog& p, int n, std::vector<Rec>& h, bool serial) {
  for (auto& op : p) {
    size_t i = h.size(); h.push_back(Rec()); h[i].c = &op; h[i].client = n; h[i].start = ++tick;
    bool ok = false; std::vector<std::pair<Key, std::string>> got; std::vector<Ev> wr;
    switch (op.k) {
      case Cop::WRITE: case Cop::CURW: {
        h[i].written = op.b; for (auto& e : h[i].written) if (!e.del) e.val += strf("#%d.%zu", n, i);
        std::vector<Ev> b = h[i].written; std::vector<monotone_event_t> v(b.size());
        for (size_t k = 0; k < b.size(); k++) { auto& e = v[k]; memset(&e, 0, sizeof e); e.flags = b[k].del ? MONOTONE_DELETE : 0; e.id = b[k].id; e.value = (void*)b[k].val.data(); e.value_size = b[k].val.size(); }
        if (op.k == Cop::WRITE) ok = db.write_raw(v);
        else {
          auto c = monotone_cursor(db.h, nullptr, nullptr); ok = c != nullptr; uint64_t last = 0; bool first = true;
          for (int k = 0; ok && k < 1000; k++) {
            monotone_event_t e; memset(&e, 0, sizeof e); int rc = monotone_read(c, &e); if (rc < 0) { ok = false; db.err = "read"; } if (rc <= 0) { if (k < 2) ok = db.write_raw(v); break; }
            if (!first && e.id <= last) { ok = false; db.err = "cursor out of order"; break; } last = e.id; first = false;
            if (k == 1) { ok = db.write_raw(v); monotone_event_t x; memset(&x, 0, sizeof x); if (ok && (monotone_read(c, &x) < 0 || (x.id && x.id != last))) { ok = false; db.err = "current event changed by the write"; } }
            if (ok && monotone_next(c) < 0) { ok = false; db.err = "next"; }
          }
          if (c) monotone_free(c);
        }
        if (serial) for (size_t k = 0; k < b.size(); k++) h[i].written[k].id = v[k].id;
        break;
      }
      case Cop::SCAN: ok = db.scan(&got, op.has_from ? &op.from : nullptr, op.limit); break;
      case Cop::CMD: case Cop::DROP: { std::string o; ok = op.cmd.compare(0, 4, "show") == 0 ? db.exec(op.cmd, &o) : db.exec(op.cmd); break; }
    }
    auto& r = h[i]; r.ok = ok; r.done = true; if (!ok) r.err = db.err; r.got = got; r.end = ++tick;
  }
}
static void verify_final(Ctx& c, const Scn& s, Db& db, std::vector<Rec>& h, const Model& init, const char* what) {
  static Cop fin = cs(); Rec r; r.c = &fin; r.client = -1; r.start = ++tick; r.is_final = true; r.done = true;
  r.ok = db.scan(&r.got); r.end = ++tick; h.push_back(r);
  if (!r.ok) fail(strf("%s: read error", what), "%s\n%s", db.err.c_str(), where().c_str());
  std::string e = explain(h, init); if (!e.empty()) fail(strf("%s: not explained by any order of the operations", what), "%s\n%s", e.c_str(), where().c_str());
}
// the process dies in the middle of a schedule
struct Cut { fs::Image img; std::vector<Rec> h; uint64_t sig; std::string at; };
static std::unordered_set<uint64_t> cut_seen;
static void cut_point(std::vector<Cut>& v, const std::vector<Rec>& h, const fs::Image& im, const std::string& at) {
  uint64_t g = im.hash(); auto mix = [&](uint64_t x) { g = (g ^ x) * 0x9E3779B97F4A7C15ull; g ^= g >> 29; };
  for (auto& r : h) { mix(r.client * 64 + r.done * 2 + r.ok); mix((uint64_t)r.c); for (auto& x : r.got) { mix(x.first.first); mix(std::hash<std::string>()(x.second)); } for (auto& e : r.written) mix(e.id + 7); }
  if (!cut_seen.insert(g).second) return;
  v.push_back({im, h, g, at});
}
static void check_cuts(Ctx& c, const Scn& s, std::vector<Cut>& v, const Model& init) {
  for (auto& x : v) {
    fs::restore(x.img); sched::reset_objects(); c.exec(); c.want("crash points");
    Db d; d.pre.push_back("set interval to 4"); for (auto& p : s.pre) d.pre.push_back(p); if (s.serial) d.pre.push_back("set serial to true");
    fs::Image im = x.img; static fs::Image fixed;
    if (!d.open()) fail("open after a crash inside a schedule failed", "%s\nat %s\n%s", d.err.c_str(), x.at.c_str(), where().c_str());
    std::vector<std::pair<Key, std::string>> got; if (!d.scan(&got)) fail("read error after a crash inside a schedule", "%s\nat %s\n%s", d.err.c_str(), x.at.c_str(), where().c_str());
    d.close();
    std::vector<size_t> fly; for (size_t i = 0; i < x.h.size(); i++) if (!x.h[i].done && (x.h[i].c->k == Cop::WRITE || x.h[i].c->k == Cop::CURW)) fly.push_back(i);
    std::string why; bool ok = false; static Cop fin = cs();
    for (uint64_t m = 0; m < 1ull << fly.size() && !ok; m++) {
      std::vector<Rec> h; uint64_t last = 0;
      for (size_t i = 0; i < x.h.size(); i++) { bool drop = false; for (size_t k = 0; k < fly.size(); k++) if (fly[k] == i && !(m >> k & 1)) drop = true; if (drop) continue; h.push_back(x.h[i]); last = std::max(last, std::max(x.h[i].start, x.h[i].done ? x.h[i].end : 0)); }
      bool gone = false;   // automatic ids of an unfinished write are known from its unique values only
      if (s.serial) for (auto& r : h) if (!r.done && r.c->k == Cop::WRITE) for (auto& e : r.written) if (e.id == AUTO) { gone = true; for (auto& g : got) if (g.second == e.val) { e.id = g.first.first; gone = false; } if (gone) break; }
      if (gone) continue;
      for (auto& r : h) if (!r.done && (r.c->k == Cop::WRITE || r.c->k == Cop::CURW)) { r.done = r.ok = true; r.end = last + 1; }
      Rec f; f.c = &fin; f.client = -1; f.start = last + 2; f.end = last + 3; f.is_final = f.done = f.ok = true; f.got = got; h.push_back(f);
      std::string e = explain(h, init); if (e.empty()) ok = true; else why = e;
    }
    if (!ok) { std::string g; for (auto& e : got) g += " " + show_key(e.first) + "=" + quote(e.second); fail("after a crash inside a schedule: not explained by any order of the operations", "%s\ncrash at %s; contents:%s\n%s", why.c_str(), x.at.c_str(), g.c_str(), where().c_str()); }
  }
}
static void body(Ctx& c, const Scn& s, sched::Exec& ex) {
  Db db; Model init; prepare(s, db, init); std::vector<Rec> h; h.reserve(64); tick = 0; cur_scn = &s; cur_ex = &ex; cur_hist = &h;
  if (!db.open()) fail("open failed", "%s", db.err.c_str());
  for (auto& x : s.setup) db.must(x);
  std::vector<Cut> cuts;
  int dev = 0; for (auto& x : ex.prefix) if (x.pick) dev++;
  if (!only_hangs && (dev <= 1 || c.thorough)) fs::set_recorder([&](const fs::Point& p, const fs::Image& im) { cut_point(cuts, h, im, p.what.empty() ? p.path : p.what); }, false);
  sched::start_exec(ex);
  std::vector<int> t; for (size_t i = 0; i < s.cl.size(); i++) t.push_back(sched::spawn([&, i] { run_client(db, s.cl[i], (int)i, h, s.serial); }, "client"));
  for (int x : t) sched::join(x);
  if (s.close_racing) { db.close(); }
  sched::end(); if (!only_hangs) fs::clear_recorder();
  c.exec(); c.op(ex.steps);
  for (auto& r : h) if (!r.ok && !r.c->may_fail) fail(strf("%s failed although nothing was wrong", r.c->k == Cop::WRITE ? "write" : r.c->k == Cop::SCAN ? "scan" : r.c->cmd.substr(0, r.c->cmd.find_first_of("0123456789'")).c_str()), "%s\n%s", r.err.c_str(), where().c_str());
  if (s.serial) {
    std::map<uint64_t, bool> ids;
    for (auto& r : h) if (r.c->k == Cop::WRITE && r.ok) { uint64_t last = 0; bool first = true; for (size_t k = 0; k < r.written.size(); k++) {
      auto& e = r.written[k]; bool a = r.c->b[k].id == AUTO;
      if (!ids.insert({e.id, a}).second) fail("the same id was assigned twice", "%lu\n%s", e.id, where().c_str()); if (!a) continue;
      if (init.count({e.id, ""})) fail("an existing id was assigned", "%lu\n%s", e.id, where().c_str()); if (!first && e.id <= last) fail("ids of a batch do not increase", "%lu\n%s", e.id, where().c_str()); last = e.id; first = false;
      for (auto& q : h) if (q.done && q.ok && q.c->k == Cop::WRITE && q.end < r.start) for (auto& x : q.written) if (x.id >= e.id) fail("an assigned id is not greater than those of finished writes", "%lu, finished before: %lu\n%s", e.id, x.id, where().c_str()); } }
    if (!s.close_racing) {   // one more: greater than everything
      Ev e = put(AUTO, "last"); std::vector<monotone_event_t> v(1); memset(&v[0], 0, sizeof v[0]); v[0].id = AUTO; v[0].value = (void*)e.val.data(); v[0].value_size = e.val.size();
      static Cop lw = cw({put(AUTO, "last")}); Rec r; r.c = &lw; r.client = -1; r.start = ++tick; r.ok = db.write_raw(v); r.end = ++tick; r.done = true; if (!r.ok) fail("write failed although nothing was wrong", "%s\n%s", db.err.c_str(), where().c_str());
      uint64_t top = 0; bool any = false; for (auto& x : init) { top = std::max(top, x.first.first); any = true; } for (auto& x : ids) { top = std::max(top, x.first); any = true; }
      if (any && v[0].id <= top) fail("an assigned id is not greater than those of finished writes", "%lu, highest before %lu\n%s", v[0].id, top, where().c_str());
      e.id = v[0].id; r.written = {e}; h.push_back(r);
    }
  }
  bool was_open = !s.close_racing;
  if (was_open) {
    if (s.workers + s.uploaders) {
      sched::run_others();
      // everything queued is done by now: after a checkpoint nothing stays in memory
      if (!s.serial || true) {
        db.must("checkpoint"); sched::run_others();
        if (only_hangs && s.workers) for (auto& p : partitions(db)) if (p.in_memory && p.raw["refresh"].b) fail("a queued refresh was never done", "partition %lu\n%s", p.min, where().c_str());
        if (only_hangs && s.workers) for (auto& p : partitions(db)) if (p.in_memory) fail("a partition is not refreshed by a checkpoint", "partition %lu\n%s\n%s\n%s", p.min, db.must("show partitions debug").c_str(), sched::describe().c_str(), where().c_str());
      }
    }
    if (!only_hangs) verify_final(c, s, db, h, init, "after the run");
    fs::Image im = fs::snapshot(); db.close();
    if (!only_hangs) { fs::restore(im); sched::reset_objects(); Db d2; Model x; d2.pre.push_back("set interval to 4"); for (auto& p : s.pre) d2.pre.push_back(p); if (!d2.open()) fail("open after a crash failed", "%s\n%s", d2.err.c_str(), where().c_str()); verify_final(c, s, d2, h, init, "after a crash"); d2.close(); check_cuts(c, s, cuts, init); }
  }
  if (!only_hangs) check_no_handles("concurrent run");
  uint64_t hh = std::hash<std::string>()(s.name); auto mix = [&](uint64_t v) { hh = (hh ^ v) * 0x9E3779B97F4A7C15ull; hh ^= hh >> 29; };
  for (auto& r : h) { mix(r.start); mix(r.end); mix(r.ok); for (auto& g : r.got) { mix(g.first.first); mix(std::hash<std::string>()(g.second)); } }
  c.state(hh);
  cur_hist = nullptr; cur_ex = nullptr;
}
extern "C" char __executable_start;
static std::string exe_file() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return n > 0 ? std::string(b, n) : ""; }
static void runScn(Ctx& c, const Scn& s, uint64_t shard) {
  sched::on_deadlock = only_hangs ? dead_c17 : dead_c16;
  cut_seen.clear(); c.note("scenario %s, shard %lu", s.name.c_str(), shard);
  race::points = race::detect = false;
  if (race::have_callbacks) {   // instructions which take part in a data race become scheduling points
    race::clear(); race::detect = true; uint64_t k = sched::explore(1, true, false, 0, 1, s.shards > 1 && s.bound > 1 ? 120 : UINT64_MAX, [&](sched::Exec& e) { body(c, s, e); });
    race::detect = false; race::points = true; c.want("schedules (race detection)", k);
    if (c.verbose) { printf("%lu schedules, %zu racing instructions:\n", k, race::racy()); std::string cmd = "addr2line -f -p -s -e " + exe_file(); for (void* p : race::racy_list()) cmd += strf(" 0x%lx", (unsigned long)((char*)p - 1 - &__executable_start)); if (race::racy() && system(cmd.c_str())) {} fflush(stdout); }
    c.want("racing instructions", race::racy());
    if (!race::racy() && s.bound == 1) { if (shard == 0) c.sample(strf("%s: %lu schedules with at most one deviation", s.name.c_str(), k)); return; }
  }
  uint64_t n = sched::explore(s.bound, true, false, shard, s.shards, UINT64_MAX, [&](sched::Exec& e) { body(c, s, e); });
  c.want("schedules", n); if (c.verbose) printf("%lu schedules\n", n);
  if (shard == 0) c.sample(strf("%s: %lu schedules with at most %d deviations in shard 0 of %lu", s.name.c_str(), n, s.bound, s.shards));
}
// ---- scenarios
struct NOp { const char* n; Cop c; };
static std::vector<NOp> ops_for(int lay) {
  std::vector<NOp> v = {
    {"w12", cw({put(1, "x"), put(2, "y")})}, {"w15", cw({put(1, "p"), put(5, "q")})}, {"w51", cw({put(5, "r"), del(1), put(13, "n")})},
    {"scan", cs()}, {"scan5", cs(2, 2)}, {"refresh0", cc("refresh partition if exists 0", true)}, {"refresh", cc("refresh partitions between 0 and 100", true)},
    {"drop0", cd(0, 0, false)}, {"drop", cd(0, 7, true)}, {"checkpoint", cc("checkpoint")}, {"rotate", cc("debug 'wal_create'")}, {"gc", cc("debug 'wal_gc'")},
    {"show", cc("show partitions debug")}, {"ddl", cc("create storage if not exists sx")}, {"alter", cc("alter storage main set (compression 'zstd')")}, {"service", cc("service")}, {"shows", cc("show storages")} };
  auto add = [&](const char* n, const char* s) { v.push_back({n, cc(s, true)}); };
  if (lay != L_PLAIN && lay != L_PIPE) { add("move", "move partition if exists 0 into s1"); add("moves", "move partitions between 0 and 100 into s2"); }
  if (lay == L_CLOUD || lay == L_CLOUD_KEEP || lay == L_MIXED) { add("upload", "upload partitions between 0 and 100 if cloud"); add("download", "download partitions between 0 and 100 if cloud"); }
  if (lay == L_PIPE) add("rebalance", "rebalance");
  return v;
}
static void special(std::vector<Scn>& v, bool th) {
  int b2 = 2, b3 = th ? 3 : 2;
  auto S = [&](const char* n, int lay, int st, int wk, int bound, std::vector<Prog> cl) -> Scn& { Scn s; s.name = n; s.lay = lay; s.state = st; s.workers = wk; s.bound = bound; s.cl = cl; s.shards = 12; v.push_back(s); return v.back(); };
  Cop w12 = cw({put(1, "x"), put(2, "y")}), w21 = cw({put(2, "u"), put(1, "v")}), w15 = cw({put(1, "p"), put(5, "q")}), w51 = cw({put(5, "r"), put(1, "s")}), wn = cw({put(13, "n"), put(17, "o")});
  Cop r0 = cc("refresh partition if exists 0", true), rr = cc("refresh partitions between 0 and 100", true), ck = cc("checkpoint"), rot = cc("debug 'wal_create'"), gc = cc("debug 'wal_gc'");
  S("batches crossing partitions", L_PLAIN, 0, 0, b3, {{w15}, {w51}});
  S("batches in a partition, reader", L_PLAIN, 0, 0, b2, {{w12, w21}, {w21}, {cs(), cs()}});
  S("three writers crossing", L_PLAIN, 1, 0, b2, {{w15}, {w51}, {cw({put(9, "z"), put(5, "z"), put(1, "z")})}});
  S("writer, reader, refresh", L_PLAIN, 3, 0, b2, {{w15, w12}, {cs(), cs(2, 2)}, {rr}});
  S("writer, reader, worker", L_PLAIN, 3, 1, b2, {{w15, ck, w12}, {cs(), cs()}});
  S("writer, two workers", L_PLAIN, 3, 2, b2, {{w15, ck, w12, ck}});
  S("new partitions", L_PLAIN, 1, 1, b2, {{wn, w15}, {cw({put(13, "m")}), cs(12, 9)}});
  S("log rotation and removal", L_PLAIN, 0, 0, b2, {{w12, w15}, {rr, gc}, {rot}});
  S("log rotation and removal 2", L_PLAIN, 2, 0, b2, {{w12, w15}, {rot, rr, gc}});
  S("drop and write", L_PLAIN, 3, 1, b2, {{cd(0, 0, false), w12}, {cw({put(2, "t"), put(6, "t")}), cs()}});
  S("drop range and refresh", L_PLAIN, 3, 0, b2, {{cd(0, 7, true)}, {rr}, {w15}});
  S("move and write", L_MULTI, 3, 0, b2, {{cc("move partition if exists 0 into s1", true)}, {w12, cs()}, {r0}});
  S("moves crossing", L_MULTI, 1, 0, b2, {{cc("move partitions between 0 and 100 into s1", true)}, {cc("move partitions between 0 and 100 into s2", true)}, {w15}});
  S("cloud", L_CLOUD, 3, 1, b2, {{ck, w12}, {cs()}}).uploaders = 1;
  S("cloud keep", L_CLOUD_KEEP, 3, 1, b2, {{rr}, {w15, cs()}}).uploaders = 1;
  S("upload and download", L_CLOUD_KEEP, 1, 0, b2, {{cc("upload partitions between 0 and 100 if cloud", true)}, {cc("download partitions between 0 and 100 if cloud", true)}, {w12, r0}});
  S("pipeline", L_PIPE, 1, 2, b2, {{w15, cw({put(21, "k")})}, {cs()}});
  S("pipeline rebalance", L_PIPE, 1, 0, b2, {{cc("rebalance", true)}, {cc("rebalance", true)}, {w15}});
  { Scn& s = S("serial", L_PLAIN, 0, 0, b3, {{cw({put(AUTO, "a"), put(AUTO, "b")})}, {cw({put(AUTO, "c")})}, {cw({put(AUTO, "d"), put(AUTO, "e")})}}); s.serial = true; }
  { Scn& s = S("serial across partitions", L_PLAIN, 1, 1, b2, {{cw({put(AUTO, "a"), put(AUTO, "b"), put(AUTO, "c")})}, {cw({put(AUTO, "c"), put(AUTO, "d")}), cs()}}); s.serial = true; }
  S("cursor and writes with workers", L_PLAIN, 3, 2, b2, {{ck, cu({put(3, "i"), put(6, "j"), del(9)}), ck}});
  S("cursor and writes with workers, cloud", L_CLOUD, 3, 1, b2, {{ck, cu({put(3, "i"), put(6, "j"), put(13, "n")})}}).uploaders = 1;
  S("cursor and writes with workers, pipeline", L_PIPE, 1, 2, b2, {{cu({put(1, "i"), put(13, "j"), put(17, "j")})}});
  // commands which fail, before and between those of others: nothing may stay locked
  auto E = [&](const char* n, int lay, int st, std::vector<std::string> bad, int wk) { Prog p; for (auto& x : bad) p.push_back(cc(x, true)); p.push_back(w12); Prog q = {rr, w15}; q.push_back(lay == L_PIPE ? cc("rebalance", true) : cd(0, 7, true)); S(n, lay, st, wk, 1, {p, q, {cs(), ck}}).shards = 2; };
  E("failed partition commands", L_MULTI, 2, {"move partition 0 into nosuch", "refresh partition 99", "move partition 99 into s1", "drop partition 99", "create partition 1 2", "drop partition 0 on cloud", "upload partition 0", "download partition 0", "alter storage main set (crc true)", "drop storage s1"}, 0);
  E("failed cloud commands", L_CLOUD_KEEP, 2, {"upload partition 0", "download partition 99", "upload partition 99", "move partition 0 into nosuch", "alter storage main set (cloud 'nosuch')", "drop partition 99 on cloud"}, 0);
  E("failed cloud commands, stored", L_CLOUD, 3, {"download partition 99", "drop partition 99 on storage", "move partition 0 into nosuch", "alter storage main set (cloud '')", "drop cloud cl"}, 0);
  for (auto e : {"error_refresh_1", "error_refresh_2", "error_refresh_3"}) E(strf("failed refresh, %s", e).c_str(), L_MULTI, 3, {strf("set %s to true", e), "refresh partition 0", "move partition 0 into s1", strf("set %s to false", e)}, 0);
  for (auto e : {"error_refresh_1", "error_refresh_3"}) E(strf("failed rebalance, %s", e).c_str(), L_PIPE, 1, {strf("set %s to true", e), "rebalance", "checkpoint", strf("set %s to false", e)}, 1);
  E("failed upload", L_CLOUD_KEEP, 1, {"set error_upload to true", "upload partition 0", "refresh partition 0", "set error_upload to false"}, 0);
  E("failed download", L_CLOUD, 1, {"set error_download to true", "download partition 0", "refresh partition 0", "move partition 0 into s1", "set error_download to false"}, 0);
  S("close while working", L_PLAIN, 3, 2, b2, {{w15, ck}}).close_racing = true;
  { Scn& s = S("close while uploading", L_CLOUD, 3, 1, b2, {{ck}}); s.uploaders = 1; s.close_racing = true; }
  S("close while rebalancing", L_PIPE, 1, 1, b2, {{wn}}).close_racing = true;
}
static std::vector<Scn> scenarios(bool th) {
  std::vector<Scn> v; special(v, th);
  static const int lays[] = {L_PLAIN, L_MULTI, L_CLOUD, L_CLOUD_KEEP, L_PIPE, L_MIXED};
  for (int lay : lays) {
    auto o = ops_for(lay);
    for (size_t i = 0; i < o.size(); i++) for (size_t j = i; j < o.size(); j++) for (int st : {0, 3}) {
      if (!th && st == 0 && lay != L_PLAIN) continue;
      Scn s; s.name = strf("%s state %d: %s | %s", layout_name[lay], st, o[i].n, o[j].n); s.lay = lay; s.state = st; s.workers = 1; s.uploaders = lay == L_CLOUD || lay == L_MIXED ? 1 : 0; s.cl = {{o[i].c}, {o[j].c}}; s.bound = th ? 2 : 1; s.shards = th ? 8 : 1; v.push_back(s);
    }
  }
  return v;
}
static void families(bool th, std::vector<Family>& f, bool hang) {
  auto v = std::make_shared<std::vector<Scn>>(scenarios(th));
  size_t nsp = 0; { std::vector<Scn> t; special(t, th); nsp = t.size(); }
  f.push_back({"pairs", 0, nullptr}); f.push_back({"chosen", 0, nullptr});
  auto idx = std::make_shared<std::vector<std::pair<int, int>>>(), idc = std::make_shared<std::vector<std::pair<int, int>>>();
  for (size_t i = 0; i < v->size(); i++) for (uint64_t k = 0; k < (*v)[i].shards; k++) (i < nsp ? idc : idx)->push_back({(int)i, (int)k});
  f[0].count = idx->size(); f[0].run = [v, idx, hang](Ctx& c, uint64_t i) { only_hangs = hang; runScn(c, (*v)[(*idx)[i].first], (*idx)[i].second); };
  f[1].count = idc->size(); f[1].run = [v, idc, hang](Ctx& c, uint64_t i) { only_hangs = hang; runScn(c, (*v)[(*idc)[i].first], (*idc)[i].second); };
}
// C14: ids given to concurrent writers
void serial_families(bool th, std::vector<Family>& f) {
  auto v = std::make_shared<std::vector<Scn>>();
  auto A = [](int n, const char* t) { std::vector<Ev> b; for (int k = 0; k < n; k++) b.push_back(put(AUTO, strf("%s%d", t, k))); return cw(b); };
  auto S = [&](const char* n, int st, int wk, std::vector<Prog> cl) { Scn s; s.name = n; s.lay = L_PLAIN; s.state = st; s.workers = wk; s.bound = th ? 3 : 2; s.cl = cl; s.shards = th ? 24 : 8; s.serial = true; v->push_back(s); };
  Cop e40 = cw({put(40, "e")}), e80 = cw({put(80, "E")}), eb = cw({put(60, "l"), put(120, "h")}), mix = cw({put(AUTO, "m"), put(44, "x"), put(AUTO, "M")});
  S("explicit ids against each other", 0, 0, {{e80}, {e40}});
  S("explicit ids and automatic", 0, 0, {{e80, A(1, "a")}, {e40, A(1, "b")}});
  S("explicit id and automatic batch", 0, 0, {{A(3, "a")}, {e40, A(2, "b")}});
  S("automatic batches", 0, 0, {{A(3, "a"), A(1, "b")}, {A(2, "c"), A(5, "d")}});
  S("three automatic", 0, 0, {{A(1, "a")}, {A(2, "b")}, {A(1, "c"), A(1, "d")}});
  S("mixed batches", 0, 0, {{mix}, {eb, A(1, "b")}});
  S("three with explicit ids", 2, 0, {{e40}, {eb}, {A(2, "a")}});
  S("stored events", 3, 1, {{A(2, "a"), e40}, {e80, A(1, "b")}});
  S("refresh meanwhile", 2, 0, {{A(2, "a"), A(1, "b")}, {cc("refresh partitions between 0 and 100", true)}, {e40}});
  S("dropped meanwhile", 3, 0, {{A(2, "a"), A(1, "b")}, {cd(0, 11, true)}});
  S("created meanwhile", 2, 0, {{A(2, "a"), A(1, "b")}, {cc("create partition 30 33", true), A(1, "c")}});
  S("log rotation meanwhile", 2, 1, {{A(2, "a"), A(1, "b")}, {cc("debug 'wal_create'"), cc("checkpoint"), A(1, "c")}});
  auto idx = std::make_shared<std::vector<std::pair<int, int>>>(); for (size_t i = 0; i < v->size(); i++) for (uint64_t k = 0; k < (*v)[i].shards; k++) idx->push_back({(int)i, (int)k});
  f.push_back({"concurrent", idx->size(), [v, idx](Ctx& c, uint64_t i) { only_hangs = false; runScn(c, (*v)[(*idx)[i].first], (*idx)[i].second); }});
}
static const char* rule = "pairs: two concurrent clients running every pair of operations (writes to one and several partitions in both orders, scans, refresh, move, upload, download, rebalance, drops, checkpoint, log rotation and removal, SHOW, DDL, service) on every storage layout with background workers, and chosen scenarios of up to three clients with several operations each, up to two workers, upload workers, serial mode, cursors with writes, and shutdown. Every schedule with at most 1 (pairs) or 2 (chosen; thorough 2 and up to 3) deviations from the default schedule is executed on the real code, a deviation being possible before every lock, condition, atomic and file operation and before every memory access found to take part in a data race by happens-before tracking.";
static PropReg c16({"C16", "model_checking", std::string(rule) + " The observed results are decided by an exhaustive search for an order of the operations (per partition), after the run, after a crash at the end, and after a crash at every file-system change of schedules with at most one deviation.", {"sequentially consistent memory"}, [](bool th, std::vector<Family>& f) { families(th, f, false); }});
static PropReg c17({"C17", "model_checking", std::string(rule) + " Every execution must end with all operations finished, closing included; afterwards the workers must have nothing left to do and a checkpoint must leave no partition unrefreshed.", {"sequentially consistent memory", "a read lock is granted while another reader holds the lock, as glibc does"}, [](bool th, std::vector<Family>& f) { families(th, f, true); }});

// C22 a database directory is open in at most one place
#include "world.h"
#include "race.h"
#include <inttypes.h>
#include <string.h>
#include <memory>

struct Two {
  Ctx& c; std::string sig; std::unique_ptr<Db> h[3]; int st[3] = {0, 0, 0};  // 0 no handle, 1 not open, 2 open
  bool odd[3] = {false, false, false};                                       // an earlier open was refused: the handle is not ready for a new one unless the directory was in use
  Model m; int n = 0;
  Two(Ctx& c, const std::string& s) : c(c), sig(s) {}
  static const fs::Image& base(Model* m, bool cloud = false) {
    static fs::Image img; static Model mm; if (mm.empty()) {
      fs::reset(); fs::clock_frozen = true; sched::reset_objects(); Db d; if (!d.open()) fail("open failed", "%s", d.err.c_str());
      std::vector<Ev> b = {put(1, "a"), put(12, "b", "k"), put(25, "c")}; d.must_write(b); upd(mm, b); d.must("refresh partition 0"); d.close(); img = fs::snapshot(); }
    *m = mm; return img;
  }
  void start(bool fresh) { fs::reset(); sched::reset_objects(); fs::clock_frozen = true; if (!fresh) fs::restore(base(&m)); fs::drop_handles(); }
  int owner() const { for (int i = 0; i < 3; i++) if (st[i] == 2) return i; return -1; }
  void check_others(const char* what) { int o = owner(); if (o >= 0) check_scan(*h[o], m, sig + ": the open database after " + what); }
  void freeh(int i) { h[i]->close(); h[i].reset(); st[i] = 0; odd[i] = false; }
  Db& get(int i) { if (!h[i]) { h[i].reset(new Db); if (!h[i]->init()) fail("init failed", "%s", h[i]->err.c_str()); st[i] = 1; } return *h[i]; }
  bool raw_open(int i, const std::string& path) { Db& d = get(i); c.op(); if (monotone_open(d.h, path.c_str()) == -1) { const char* e = monotone_error(d.h); d.err = e ? e : ""; return false; } return true; }
  // open of the directory in one of its spellings
  void open(int i, const std::string& path) {
    get(i); int o = owner(); uint64_t before = fs::snapshot().hash(); bool was_odd = odd[i];
    c.note("open on handle %d", i); bool ok = raw_open(i, path);
    if (o >= 0) { if (ok) fail(sig + (o == i ? ": an open handle is opened again" : ": directory is open twice"), "handle %d opened while handle %d has it open", i, o); if (fs::snapshot().hash() != before) fail(sig + ": a refused open changed files", "handle %d", i); if (st[i] != 2) st[i] = 1; check_others("a refused open"); return; }
    if (!ok) { if (was_odd) return; fail(sig + ": directory cannot be opened although nobody has it open", "handle %d: %s", i, h[i]->err.c_str()); }
    st[i] = 2; check_scan(*h[i], m, sig + ": contents after open");
  }
  void other_directory(int i) {   // on an open handle
    if (st[i] != 2) return; uint64_t before = fs::snapshot().hash(); c.note("open of another directory on handle %d", i);
    if (raw_open(i, std::string(fs::ROOT) + "/db2")) fail(sig + ": an open handle opens another directory", "handle %d", i);
    if (fs::snapshot().hash() != before) fail(sig + ": a refused open changed files", "other directory"); check_others("a refused open of another directory");
  }
  void write(int i) {
    if (!h[i]) return; std::vector<Ev> b = {put(2 + 10 * (n % 3), strf("w%d", n)), put(3, strf("v%d", n))}; n++; c.note("write on handle %d", i); uint64_t before = fs::snapshot().hash(); bool ok = h[i]->write(b);
    if (st[i] == 2) { if (!ok) fail(sig + ": write on the open handle", "%s", h[i]->err.c_str()); upd(m, b); }
    else { if (ok) fail(sig + ": write on a handle which is not open succeeds", "handle %d", i); unchanged(before, "write"); }
    check_others("a write");
  }
  void unchanged(uint64_t before, const char* what) { if (fs::snapshot().hash() != before) fail(sig + ": a call on a handle which is not open changed files", "%s", what); }
  void cmd(int i, const std::string& s, bool any = false) {
    if (!h[i]) return; c.note("%s on handle %d", s.c_str(), i); uint64_t before = fs::snapshot().hash(); bool ok = h[i]->exec(s);
    if (st[i] == 2) { if (!ok) fail(sig + ": command on the open handle", "%s: %s", s.c_str(), h[i]->err.c_str()); }
    else { if (ok && !any) fail(sig + ": command on a handle which is not open succeeds", "%s on handle %d", s.c_str(), i); unchanged(before, s.c_str()); }
    check_others("a command");
  }
  void scan(int i) {
    if (!h[i]) return; c.note("scan on handle %d", i);
    if (st[i] == 2) { check_scan(*h[i], m, sig + ": scan"); return; }
    std::vector<std::pair<Key, std::string>> got; uint64_t before = fs::snapshot().hash(); if (h[i]->scan(&got) && !got.empty()) fail(sig + ": scan of a handle which is not open returns events", "%zu", got.size()); unchanged(before, "scan"); check_others("a scan");
  }
  void crash() {
    c.note("crash"); fs::Image im = fs::snapshot(); for (int i = 0; i < 3; i++) if (h[i]) freeh(i);
    fs::restore(im); fs::drop_handles(); sched::reset_objects();
  }
  void end() {
    for (int i = 0; i < 3; i++) if (h[i]) freeh(i);
    check_no_handles(sig); Db d; if (!d.open()) fail(sig + ": directory cannot be opened after everything is closed", "%s", d.err.c_str());
    check_scan(d, m, sig + ": final contents"); d.close(); check_no_handles(sig); c.exec(); c.state(fs::snapshot().hash());
  }
};
static const char* spell[] = {"/db", "/db/", "//db"};
struct Kind { const char* name; std::function<void(Two&, int)> f; };
static const std::vector<Kind>& kinds() {
  static std::vector<Kind> v = {
    {"open", [](Two& t, int i) { t.open(i, std::string(fs::ROOT) + spell[(t.n + i) % 3]); }},
    {"free", [](Two& t, int i) { if (t.h[i]) { t.c.note("free handle %d", i); t.freeh(i); t.check_others("closing another handle"); } }},
    {"write", [](Two& t, int i) { t.write(i); }},
    {"create storage", [](Two& t, int i) { t.cmd(i, "create storage if not exists sx"); }},
    {"checkpoint", [](Two& t, int i) { t.cmd(i, "checkpoint"); }},
    {"other directory", [](Two& t, int i) { t.other_directory(i); }},
    {"scan", [](Two& t, int i) { t.scan(i); }},
  };
  return v;
}
static void sequence(Ctx& c, uint64_t idx, int len) {
  auto& k = kinds(); uint64_t na = 2 * k.size() + 1; Two t(c, "sequence"); t.start(idx & 1); uint64_t x = idx >> 1;
  for (int i = 0; i < len; i++) { uint64_t a = x % na; x /= na; if (a == na - 1) t.crash(); else k[a / 2].f(t, a % 2); }
  t.end();
}
// every command which changes something, and every call, on a handle which never was open or was refused
static const std::vector<std::string>& changing() {
  static std::vector<std::string> v = {"create storage x", "drop storage if exists main", "alter storage main set (sync false)", "alter storage main rename to m", "create cloud c (type 'mock')", "drop cloud if exists c", "alter cloud if exists c rename to d", "alter pipeline set main", "alter pipeline reset",
    "create partition 0 9", "drop partition 0", "drop partition if exists 0", "drop partitions between 0 and 100", "move partition 0 into main", "move partitions between 0 and 100 into main", "refresh partition 0", "refresh partition if exists 0", "refresh partitions between 0 and 100", "upload partition if exists 0", "download partition if exists 0 if cloud", "rebalance", "checkpoint", "service",
    "debug 'wal_create'", "debug 'wal_gc'", "debug 'memory_gc'", "set interval to 7", "set compression to 'lz4'", "show all", "show partitions debug", "show storages debug", "show wal debug", "show memory", "show pipeline", "show clouds", "show config"};
  return v;
}
static void not_open(Ctx& c, uint64_t idx) {
  auto& v = changing(); uint64_t k = v.size() + 2, mode = idx / k; idx %= k;
  Two t(c, "not open"); t.start(mode == 2);
  if (mode == 0) { t.open(0, std::string(fs::ROOT) + "/db"); t.write(0); t.open(1, std::string(fs::ROOT) + "/db"); } else t.get(1);   // refused / never opened / nothing there yet
  bool any = idx < v.size() && (v[idx].compare(0, 4, "set ") == 0 || v[idx].compare(0, 4, "show") == 0 || v[idx].find("if exists") != std::string::npos || v[idx].find("between") != std::string::npos || v[idx].compare(0, 5, "debug") == 0 || v[idx] == "checkpoint" || v[idx] == "service" || v[idx] == "rebalance");
  if (idx < v.size()) t.cmd(1, v[idx], any); else if (idx == v.size()) t.write(1); else t.scan(1);
  if (mode == 0) { t.write(0); t.cmd(0, "checkpoint"); }
  t.end();
}
// an open which fails at one of its calls, alone or while another handle is open
static void faulty(Ctx& c, uint64_t idx) {
  bool busy = idx & 1, fresh = idx >> 1 & 1, retry = idx >> 2 & 1; fs::Fault::Kind kind = idx >> 3 & 1 ? fs::Fault::STICKY : fs::Fault::ONCE; bool log = idx >> 4 & 1;
  for (uint64_t at = 0;; at++) {
    Two t(c, "failing open"); t.start(fresh); if (busy) { t.open(0, std::string(fs::ROOT) + "/db"); t.write(0); }
    t.get(1); if (log) { t.cmd(1, "set log to true", true); t.cmd(1, "set log_to_file to true", true); }
    uint64_t before = fs::snapshot().hash(); fs::Fault f; f.kind = kind; f.at = at; f.err = idx >> 5 & 1 ? 28 : 5; fs::fault_mask(~0u); fs::arm(f); bool ok = t.raw_open(1, std::string(fs::ROOT) + "/db"); fs::disarm(); bool fired = fs::fault_fired(); std::string w = fs::fault_where();
    c.note("fault at %s", w.c_str()); c.sub = at;
    if (busy) { if (ok) fail("failing open: directory is open twice", "fault at %s", w.c_str()); if (fs::snapshot().hash() != before) fail("failing open: files changed under the open database", "fault at %s", w.c_str()); t.check_others("a failed open"); t.write(0); }
    else if (ok) t.st[1] = 2; else if (!fired) fail("failing open: fails without a fault", "%s", t.h[1]->err.c_str());
    if (!ok && !busy) {
      // the failed handle must not keep the directory once it is freed; with retry it is tried again on the same handle first
      t.st[1] = 1; if (retry) { bool ok2 = t.raw_open(1, std::string(fs::ROOT) + "/db"); if (ok2) { t.st[1] = 2; check_scan(*t.h[1], t.m, "failing open: contents after a repeated open"); t.write(1); } }
      else { t.get(0); t.freeh(1); t.open(0, std::string(fs::ROOT) + "/db"); t.write(0); }
    } else if (ok) { check_scan(*t.h[1], t.m, "failing open: contents"); t.open(0, std::string(fs::ROOT) + "/db"); }
    if (busy) { t.odd[1] = true; t.freeh(0); if (retry) t.open(1, std::string(fs::ROOT) + "/db"); else { t.freeh(1); t.open(1, std::string(fs::ROOT) + "/db"); } t.write(1); }
    t.end(); if (!fired) { c.want("calls of an open which failed", at); break; }
  }
}
// crash at every change an open, a close and a first write make; the directory must open again, with a second handle refused
static void crashed(Ctx& c, uint64_t idx) {
  bool fresh = idx & 1; std::vector<fs::Image> imgs; Two t(c, "crash"); t.start(fresh); Model m0 = t.m;
  fs::set_recorder([&](const fs::Point&, const fs::Image& im) { imgs.push_back(im); }, true);
  t.open(0, std::string(fs::ROOT) + "/db"); if (idx & 2) t.write(0); if (idx & 4) t.cmd(0, "checkpoint"); t.freeh(0); fs::clear_recorder(); Model m1 = t.m;
  for (auto& im : imgs) {
    fs::restore(im); fs::drop_handles(); sched::reset_objects(); Two u(c, "after a crash"); u.m = m0; u.raw_open(0, std::string(fs::ROOT) + "/db") ? (void)(u.st[0] = 2) : fail("after a crash: directory cannot be opened", "%s", u.h[0]->err.c_str());
    std::string why; if (!scan_equals(*u.h[0], m0, &why)) { u.m = m1; check_scan(*u.h[0], m1, "after a crash: contents"); }
    u.open(1, std::string(fs::ROOT) + "/db"); u.freeh(0); u.open(1, std::string(fs::ROOT) + "/db"); u.end();
  }
}
// concurrent opens
static void dead(const std::string& w) { fail_now("deadlock while opening concurrently", w); }
static void concurrent(Ctx& c, uint64_t idx, int bound) {
  bool fresh = idx & 1; int threads = idx & 2 ? 3 : 2; bool cycle = idx & 4; sched::on_deadlock = dead; race::points = race::detect = false;
  uint64_t n = sched::explore(bound, true, false, 0, 1, UINT64_MAX, [&](sched::Exec& ex) {
    Two t(c, "concurrent open"); t.start(fresh); int open_now = 0, opened = 0; uint64_t tick = 0; std::string bad; struct R { uint64_t a, b; bool ok; int t; }; std::vector<R> rs; Model m = t.m;
    for (int i = 0; i < threads; i++) t.get(i);
    sched::start_exec(ex); std::vector<int> ids;
    for (int i = 0; i < threads; i++) ids.push_back(sched::spawn([&, i] {
      Db& d = *t.h[i]; for (int k = 0; k < (cycle ? 2 : 1); k++) {
        size_t r = rs.size(); rs.push_back({++tick, UINT64_MAX, false, i}); bool ok = d.h && monotone_open(d.h, d.path.c_str()) == 0;
        if (ok) { open_now++; opened++; if (open_now > 1) bad = "two handles are open at the same time"; rs[r].ok = true;
          std::vector<Ev> b = {put(2, strf("t%d.%d", i, k)), put(30 + i, "x")}; if (!d.write(b)) bad = "write fails: " + d.err; else upd(m, b);
          std::string why; if (!scan_equals(d, m, &why)) bad = "contents of the open database: " + why;
          open_now--; d.close(); } else { d.close(); }
        rs[r].b = ++tick; if (cycle) { if (!d.init()) bad = "init"; } }
    }, "opener"));
    for (int x : ids) sched::join(x); sched::end(); c.exec(); c.op(ex.steps);
    std::string sch; for (size_t i = 0; i < ex.trace.size(); i++) if (ex.trace[i].pick) sch += strf(" %zu:%d/%d", i, ex.trace[i].pick, ex.trace[i].n);
    if (!bad.empty()) fail("concurrent open: " + bad.substr(0, bad.find(':')), "%s; schedule%s", bad.c_str(), sch.c_str());
    // a refused open needs another one which overlaps it
    for (auto& r : rs) if (!r.ok) { bool ov = false; for (auto& o : rs) if (&o != &r && o.a < r.b && r.a < o.b) ov = true; if (!ov) fail("concurrent open: refused although nobody else was opening", "handle %d; schedule%s", r.t, sch.c_str()); }
    if (!opened) fail("concurrent open: nobody succeeded", "schedule%s", sch.c_str());
    for (int i = 0; i < 3; i++) if (t.h[i]) { t.h[i]->close(); t.h[i].reset(); t.st[i] = 0; } t.m = m; t.end();
  });
  c.want("schedules", n); c.sample(strf("%d threads, %s: %" PRIu64 " schedules", threads, fresh ? "new directory" : "existing directory", n));
}
// settings which may prevent the open: the directory must not become unusable
static void settings(Ctx& c, uint64_t idx) {
  static const char* names[] = {"mm_page_size", "mm_limit_wm", "mm_cache", "wal_rotate_wm", "interval", "compression_level", "mm_limit_behaviour", "compression", "uuid"};
  static const char* ints[] = {"0", "1", "8", "15", "16", "17", "4096", "2147483647", "2147483648", "4294967295", "4294967304", "9223372036854775807"}; static const char* strs[] = {"''", "'x'", "'error'", "'errors'", "'block'", "'lz4'", "'none'", "'0123456789abcdef0123456789abcdef'"};
  uint64_t ni = sizeof ints / sizeof *ints, ns = sizeof strs / sizeof *strs; bool limit = idx & 1, fresh = idx >> 1 & 1; idx >>= 2; std::string set;
  if (idx < 6 * ni) set = strf("set %s to %s", names[idx / ni], ints[idx % ni]); else { idx -= 6 * ni; if (idx >= 3 * ns) return; set = strf("set %s to %s", names[6 + idx / ns], strs[idx % ns]); }
  Two t(c, "settings"); t.start(fresh); c.note("%s", set.c_str()); Db d; if (limit) { d.pre.push_back("set mm_limit to true"); d.pre.push_back("set mm_limit_behaviour to 'error'"); } d.pre.push_back(set); d.workers = 0;
  c.exec(); bool init = d.init();
  if (init) {
    bool ok = monotone_open(d.h, d.path.c_str()) == 0; c.want(ok ? "accepted" : "refused at open");
    if (ok) { std::vector<Ev> b = {put(2, "x"), put(1000000, "y")}; if (d.write(b)) upd(t.m, b); check_scan(d, t.m, "settings: contents"); if (!d.exec("checkpoint")) fail("settings: checkpoint", "%s", d.err.c_str()); for (int i = 0; i < 6; i++) d.exec("service"); check_scan(d, t.m, "settings: contents after a checkpoint"); }
    d.close(); check_no_handles("settings"); if (fs::mmap_live) fail("settings: pages not returned on close", " ");
    Db e; if (!e.open()) fail("settings: directory cannot be opened after " + std::string(ok ? "it was open" : "a refused open"), "%s: %s", set.c_str(), e.err.c_str()); check_scan(e, t.m, "settings: contents later"); e.close(); check_no_handles("settings");
  } else { c.want("refused at once"); d.close(); }
  t.end();
}
static PropReg c22({"C22", "model_checking",
  "every sequence of up to 4 (thorough 5) calls on two handles of one directory (open under several spellings, open on an open handle, open of another directory on an open handle, free, write, checkpoint, a configuration command, scan, death of the process) on an existing and on a missing directory; every command on a handle whose open was refused or which never was open; a fault, once or lasting, at every call of an open, alone and while another handle is open, with and without a repeated open on the same handle; extreme and unknown values of the settings accepted before an open, which may refuse the open but not spoil the directory; a crash at every change made by open, write, checkpoint and close; and every schedule with at most 1 (thorough 2) deviations of two and three concurrent openers, one or two rounds. After each step at most one handle is open, a refused open left every file unchanged, the open handle reads exactly the reference contents, and the directory opens again when nobody has it open",
  {"flock is modelled per open file description, as Linux does"},
  [](bool th, std::vector<Family>& f) {
    int len = th ? 5 : 4; uint64_t na = 2 * kinds().size() + 1, n = 2; for (int i = 0; i < len; i++) n *= na;
    f.push_back({"sequences", n, [len](Ctx& c, uint64_t i) { sequence(c, i, len); }});
    f.push_back({"not open", 3 * (changing().size() + 2), [](Ctx& c, uint64_t i) { not_open(c, i); }});
    f.push_back({"failing open", 64, [](Ctx& c, uint64_t i) { faulty(c, i); }});
    f.push_back({"settings", 4 * (6 * 12 + 3 * 8), [](Ctx& c, uint64_t i) { settings(c, i); }});
    f.push_back({"crash", 8, [](Ctx& c, uint64_t i) { crashed(c, i); }});
    f.push_back({"concurrent", 8, [th](Ctx& c, uint64_t i) { concurrent(c, i, th ? 2 : 1); }});
  }});

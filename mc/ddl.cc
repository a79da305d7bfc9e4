#include "ddl.h"
#include <string.h>
#include <ctype.h>
#include <inttypes.h>
#include <algorithm>

RStorage* DState::storage(const std::string& n) { for (auto& s : storages) if (s.first == n) return &s.second; return nullptr; }
RCloud* DState::cloud(const std::string& n) { auto i = clouds.find(n); return i == clouds.end() ? nullptr : &i->second; }
Model DState::events() const { Model m; for (auto& p : parts) { for (auto& e : p.second.stored) m[e.first] = e.second; for (auto& e : p.second.mem) m[e.first] = e.second; } return m; }
bool DState::used(const std::string& s) const { for (auto& p : parts) if (p.second.storage == s) return true; return false; }
std::string DState::show(bool ps, bool secrets) const {
  std::string r;
  for (auto& c : clouds) { r += strf("cloud %s: type=%s login=%s url=%s debug=%d", c.first.c_str(), c.second.type.c_str(), c.second.login.c_str(), c.second.url.c_str(), c.second.debug); if (secrets) r += " password=" + c.second.password; r += "\n"; }
  for (auto& s : storages) { auto& x = s.second; r += strf("storage %s: uuid=%s path=%s cloud=%s drop_local=%d sync=%d crc=%d refresh_wm=%" PRId64 " region_size=%" PRId64 " compression=%s level=%" PRId64 " encryption=%s", s.first.c_str(), x.uuid.c_str(), x.path.c_str(), x.cloud.c_str(), x.cloud_drop_local, x.sync, x.crc, x.refresh_wm, x.region_size, x.compression.c_str(), x.level, x.encryption.c_str()); if (secrets) r += " key=" + x.key; r += "\n"; }
  for (auto& t : pipe) r += strf("tier %s: %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 "\n", t.storage.c_str(), t.partitions, t.size, t.events, t.duration);
  for (auto& v : vars) if (v.second.t == RVar::STR) r += strf("var %s=%s\n", v.first.c_str(), v.second.s.c_str()); else r += strf("var %s=%" PRIu64 "\n", v.first.c_str(), v.second.i);
  if (ps) for (auto& p : parts) r += strf("partition %" PRIu64 "..%" PRIu64 " on %s local=%d cloud=%d\n", p.second.min, p.second.max, p.second.storage.c_str(), p.second.local, p.second.cloud);
  return r;
}
std::string state_diff(const DState& w, const DState& g, bool parts) {
  std::string a = w.show(parts, true), b = g.show(parts, true); if (a == b) return "";
  std::vector<std::string> x, y; auto split = [](const std::string& s, std::vector<std::string>& v) { size_t p = 0, q; while ((q = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + 1; } };
  split(a, x); split(b, y); for (size_t i = 0; i < std::max(x.size(), y.size()); i++) { std::string l = i < x.size() ? x[i] : "(nothing)", m = i < y.size() ? y[i] : "(nothing)"; if (l != m) return "expected [" + l + "], got [" + m + "]"; }
  return "differs";
}

// ---- tokens
namespace {
struct Err { std::string why; };
struct Tok { enum K { END, INT, REAL, WORD, STR, SYM } k = END; std::string s, low; uint64_t i = 0; char c = 0; };
bool is(const Tok& t, const char* kw) { return t.k == Tok::WORD && t.low == kw; }
const char* keywords[] = {"true","false","us","microsecond","microseconds","ms","millisecond","milliseconds","sec","second","seconds","min","minute","minutes","hr","hour","hours","day","days","week","weeks","month","months","year","years","kb","kib","k","mb","mib","m","gb","gib","g","tb","tib","t","set","reset","to","show","all","config","checkpoint","service","create","storage","storages","partition","partitions","if","not","exists","drop","pipeline","alter","rename","move","between","and","into","refresh","rebalance","on","cloud","clouds","download","upload","verbose","debug","wal","memory"};
bool keyword(const std::string& low) { for (auto k : keywords) if (low == k) return true; return false; }
uint64_t unit(const std::string& w) {
  const uint64_t S = 1000000, H = 3600 * S, D = 24 * H;
  static const std::map<std::string, uint64_t> u = {{"us", 1}, {"microsecond", 1}, {"microseconds", 1}, {"ms", 1000}, {"millisecond", 1000}, {"milliseconds", 1000}, {"sec", S}, {"second", S}, {"seconds", S}, {"min", 60 * S}, {"minute", 60 * S}, {"minutes", 60 * S}, {"hr", H}, {"hour", H}, {"hours", H}, {"day", D}, {"days", D}, {"week", 7 * D}, {"weeks", 7 * D}, {"month", 30 * D}, {"months", 30 * D}, {"year", 360 * D}, {"years", 360 * D},
    {"kb", 1000}, {"kib", 1024}, {"k", 1024}, {"mb", 1000000}, {"mib", 1 << 20}, {"m", 1 << 20}, {"gb", 1000000000}, {"gib", 1 << 30}, {"g", 1 << 30}, {"tb", 1000000000000}, {"tib", 1ull << 40}, {"t", 1ull << 40}};
  auto i = u.find(w); return i == u.end() ? 0 : i->second;
}
std::vector<Tok> tokens(const std::string& s) {
  std::vector<Tok> v; size_t p = 0, n = s.size();
  for (;;) {
    while (p < n && (isspace((unsigned char)s[p]) || s[p] == '#')) { if (s[p] == '#') while (p < n && s[p] != '\n') p++; else p++; }
    if (p >= n) break;
    Tok t; unsigned char c = s[p];
    if (isdigit(c)) {
      t.k = Tok::INT; __uint128_t x = 0; while (p < n && isdigit((unsigned char)s[p])) { x = x * 10 + (s[p] - '0'); if (x > UINT64_MAX) throw Err{"integer overflow"}; p++; }
      if (p < n && (s[p] == '.' || s[p] == 'e' || s[p] == 'E')) throw Err{"float"};   // no command takes a float
      t.i = (uint64_t)x;
    } else if (isalpha(c) || c == '_') {
      size_t b = p; while (p < n && (isalnum((unsigned char)s[p]) || s[p] == '_' || s[p] == '.' || s[p] == '$')) p++;
      t.k = Tok::WORD; t.s = s.substr(b, p - b); t.low = t.s; for (auto& ch : t.low) ch = tolower(ch);
    } else if (c == '\'' || c == '"') {
      size_t b = ++p; bool sl = false; t.k = Tok::STR;
      for (;; p++) { if (p >= n || s[p] == '\n') throw Err{"unterminated string"}; if (!sl && (unsigned char)s[p] == c) break; sl = !sl && s[p] == '\\'; }
      t.s = s.substr(b, p - b); p++;
    } else if (ispunct(c)) { t.k = Tok::SYM; t.c = c; p++; }
    else throw Err{"bad token"};
    v.push_back(t);
  }
  // units
  std::vector<Tok> r; for (size_t i = 0; i < v.size(); i++) {
    Tok t = v[i];
    if (t.k == Tok::INT && i + 1 < v.size() && v[i + 1].k == Tok::WORD) { uint64_t u = unit(v[i + 1].low); if (u) { __uint128_t x = (__uint128_t)t.i * u; if (x > UINT64_MAX) throw Err{"integer overflow"}; t.i = (uint64_t)x; i++; } }
    r.push_back(t);
  }
  return r;
}
struct P {
  std::vector<Tok> v; size_t p = 0; Tok end;
  const Tok& cur() { return p < v.size() ? v[p] : end; }
  Tok next() { Tok t = cur(); p++; return t; }
  bool kw(const char* k) { if (is(cur(), k)) { p++; return true; } return false; }
  bool sym(char c) { if (cur().k == Tok::SYM && cur().c == c) { p++; return true; } return false; }
  void need(const char* k) { if (!kw(k)) throw Err{std::string("expected ") + k}; }
  std::string name() { if (cur().k != Tok::WORD || keyword(cur().low)) throw Err{"name expected"}; return next().s; }
  bool has_name() { return cur().k == Tok::WORD && !keyword(cur().low); }
  uint64_t integer() { if (cur().k != Tok::INT) throw Err{"integer expected"}; return next().i; }
  std::string str() { if (cur().k != Tok::STR) throw Err{"string expected"}; return next().s; }
  bool boolean() { if (kw("true")) return true; if (kw("false")) return false; throw Err{"bool expected"}; }
  bool if_exists() { if (!kw("if")) return false; need("exists"); return true; }
  bool if_not_exists() { if (!kw("if")) return false; need("not"); need("exists"); return true; }
  bool if_cloud() { if (!kw("if")) return false; need("cloud"); return true; }
  void fin() { if (p < v.size()) throw Err{"trailing input"}; }
};
bool uuid_ok(const std::string& s) { if (s.size() != 36) return false; for (size_t i = 0; i < 36; i++) { bool dash = i == 8 || i == 13 || i == 18 || i == 23; if (dash ? s[i] != '-' : !isxdigit((unsigned char)s[i])) return false; } return true; }

struct SOpt { RStorage v; std::set<std::string> set; };
void storage_opts(P& p, SOpt& o) {
  if (!p.sym('(')) return; if (p.sym(')')) return;
  for (;;) {
    Tok t = p.next(); if (t.k != Tok::WORD || (keyword(t.low) && t.low != "cloud")) throw Err{"option"};
    const std::string& n = t.s; auto& v = o.v;
    if (n == "uuid") { v.uuid = p.str(); if (!uuid_ok(v.uuid)) throw Err{"uuid"}; for (auto& c : v.uuid) c = tolower(c); }
    else if (n == "path") v.path = p.str(); else if (n == "cloud") v.cloud = p.str();
    else if (n == "cloud_drop_local") v.cloud_drop_local = p.boolean(); else if (n == "sync") v.sync = p.boolean(); else if (n == "crc") v.crc = p.boolean();
    else if (n == "refresh_wm") v.refresh_wm = p.integer();
    else if (n == "region_size") { v.region_size = p.integer(); if (v.region_size == 0) throw Err{"region_size"}; }
    else if (n == "compression") { v.compression = p.str(); if (v.compression != "" && v.compression != "none" && v.compression != "zstd" && v.compression != "lz4") throw Err{"compression"}; }
    else if (n == "compression_level") v.level = p.integer();
    else if (n == "encryption") { v.encryption = p.str(); if (v.encryption != "" && v.encryption != "none" && v.encryption != "aes") throw Err{"encryption"}; }
    else if (n == "encryption_key") { v.key = p.str(); if (v.key.size() && v.key.size() != 32) throw Err{"key"}; }
    else throw Err{"unknown option"};
    o.set.insert(n);
    if (p.sym(',')) continue; if (!p.sym(')')) throw Err{")"}; break;
  }
}
struct COpt { RCloud v; std::set<std::string> set; };
void cloud_opts(P& p, COpt& o) {
  if (!p.sym('(')) return; if (p.sym(')')) return;
  for (;;) {
    Tok t = p.next(); if (t.k != Tok::WORD || (keyword(t.low) && t.low != "debug" && t.low != "cloud")) throw Err{"option"};
    const std::string& n = t.s; auto& v = o.v;
    if (n == "type") v.type = p.str(); else if (n == "url") v.url = p.str();
    else if (n == "login" || n == "access_key") { v.login = p.str(); o.set.insert("login"); }
    else if (n == "password" || n == "secret_key") { v.password = p.str(); o.set.insert("password"); }
    else if (n == "debug") v.debug = p.boolean(); else throw Err{"unknown option"};
    o.set.insert(n);
    if (p.sym(',')) continue; if (!p.sym(')')) throw Err{")"}; break;
  }
}
// the modelled S3 server (s3.cc) answers requests with these options only
bool answers(const RCloud& c) { return c.type != "s3" || (c.url == "http://s3" && c.login == "login" && c.password == "secret"); }
bool answers(DState& s, const std::string& cloud) { return cloud.empty() || !s.cloud(cloud) || answers(*s.cloud(cloud)); }
bool same_server(DState& s, const std::string& a, const std::string& b) { return a.size() && b.size() && s.cloud(a)->type == s.cloud(b)->type && s.cloud(a)->url == s.cloud(b)->url; }
bool cloud_ok(const RCloud& c) { return c.type != "s3" || (c.login.size() && c.password.size() && c.url.size()); }
}
bool readable(const DState& s) {
  for (auto& p : s.parts) if (p.second.cloud && !p.second.local) { auto x = const_cast<DState&>(s).storage(p.second.storage); auto c = s.clouds.find(x ? x->cloud : ""); if (c != s.clouds.end() && !answers(c->second)) return false; }
  return true;
}
namespace {
typedef std::function<RExec(DState&)> Exec;
RExec ok() { return {R_OK}; }
RExec bad(const char* w) { return {R_ERR, false, w}; }

uint64_t interval(DState& s) { return s.vars["interval"].i; }
RPart* find(DState& s, uint64_t id) { for (auto& p : s.parts) if (id >= p.second.min && id <= p.second.max) return &p.second; return nullptr; }
// partitions which a range command covers
std::vector<uint64_t> range(DState& s, uint64_t a, uint64_t b) { std::vector<uint64_t> v; for (auto& p : s.parts) if (p.second.min >= a && p.second.max <= b) v.push_back(p.first); return v; }
RExec drop_one(DState& s, RPart* p, int what) {   // 1 storage, 2 cloud, 3 both
  if (what == 3) { if (p->cloud && !answers(s, s.storage(p->storage)->cloud)) { p->local = false; return bad("server"); } for (auto i = s.ghost.begin(); i != s.ghost.end();) if (i->first.first >= p->min && i->first.first <= p->max) i = s.ghost.erase(i); else ++i; s.parts.erase(p->min); return ok(); }
  if (what != 1 && p->cloud && !answers(s, s.storage(p->storage)->cloud)) return bad("server");
  if (what == 1) p->local = false; else p->cloud = false;
  if (!p->local && !p->cloud) { for (auto& e : p->stored) s.ghost[e.first] = e.second; p->stored.clear(); }
  return ok();
}
RExec upload_one(DState& s, RPart* p, bool if_cloud) {
  if (s.storage(p->storage)->cloud.empty()) return if_cloud ? ok() : bad("no cloud");
  if (p->cloud) return ok();
  if (!p->local || !answers(s, s.storage(p->storage)->cloud)) return bad("no file");
  p->cloud = true; return ok();
}
RExec download_one(DState& s, RPart* p, bool if_cloud) {
  if (s.storage(p->storage)->cloud.empty()) return if_cloud ? ok() : bad("no cloud");
  if (!p->local && p->cloud) { if (!answers(s, s.storage(p->storage)->cloud)) return bad("server"); p->local = true; }
  return ok();
}
RExec refresh_one(DState& s, RPart* p, const std::string* into) {
  if (into && !s.storage(*into)) return bad("no storage");
  std::string dst = into ? *into : p->storage;
  if (into && dst == p->storage && !p->local && !p->cloud && !s.storage(dst)->cloud.empty()) return bad("no file");
  if (p->cloud && !answers(s, s.storage(p->storage)->cloud)) { return bad("server"); }
  if (!p->local && p->cloud) p->local = true; p->cloud = false;
  if (!(into && dst == p->storage) && s.storage(dst)->encryption == "aes" && s.storage(dst)->key.empty()) return bad("no encryption key");
  if (!(into && dst == p->storage)) { for (auto& e : p->mem) p->stored[e.first] = e.second; p->mem.clear(); p->local = true; p->storage = dst; }
  auto st = s.storage(dst);
  if (!st->cloud.empty()) { if (!answers(s, st->cloud)) return bad("server"); p->cloud = true; if (st->cloud_drop_local) p->local = false; }
  return ok();
}
Exec each(uint64_t a, uint64_t b, std::function<RExec(DState&, RPart*)> f) {
  // a range command is executed per partition: if one fails, the ones before it stay executed
  return [=](DState& s) { for (auto id : range(s, a, b)) { auto r = f(s, &s.parts[id]); if (r.res != R_OK) return r; } return ok(); };
}
Exec one(uint64_t id, bool ife, std::function<RExec(DState&, RPart*)> f) { return [=](DState& s) { auto p = find(s, id); if (!p) return ife ? ok() : bad("no partition"); return f(s, p); }; }

Exec parse_show(P& p) {
  std::vector<std::pair<int, std::string>> names; bool any = false;
  for (;;) {
    Tok t = p.next();
    if (is(t, "memory") || is(t, "wal") || is(t, "clouds") || is(t, "storages") || is(t, "pipeline")) ;
    else if (is(t, "cloud")) names.push_back({1, p.name()});
    else if (is(t, "storage")) names.push_back({2, p.name()});
    else if (is(t, "partition")) { p.integer(); any = true; }
    else if (is(t, "partitions")) { if (p.has_name()) names.push_back({2, p.name()}); }
    else if (is(t, "config") || is(t, "all")) { if (p.cur().k == Tok::WORD || p.cur().k == Tok::STR) names.push_back({3, p.next().s}); }
    else if ((t.k == Tok::WORD && !keyword(t.low)) || t.k == Tok::STR) names.push_back({3, t.s});
    else throw Err{"show"};
    p.kw("debug");
    if (!p.sym(',')) break;
  }
  p.fin();
  return [=](DState& s) -> RExec {
    for (auto& n : names) if (n.first == 1 ? !s.cloud(n.second) : n.first == 2 ? !s.storage(n.second) : false) return bad("unknown name");
    for (auto& n : names) if (n.first == 3 && !s.vars.count(n.second)) return {R_ANY};
    return any ? RExec{R_ANY} : ok(); };
}
Exec parse_cmd(P& p) {
  if (p.cur().k == Tok::END) return [](DState&) { return ok(); };
  if (p.kw("show")) return parse_show(p);
  if (p.kw("set")) {
    if (p.cur().k != Tok::WORD) throw Err{"set"}; std::string n = p.next().s; p.need("to"); Tok v = p.next(); p.fin();
    return [=](DState& s) -> RExec {
      auto i = s.vars.find(n); if (i == s.vars.end()) return bad("variable"); auto& r = i->second; if (!r.online) return bad("not online");
      switch (r.t) { case RVar::BOOL: if (!is(v, "true") && !is(v, "false")) return bad("type"); r.i = is(v, "true"); break;
        case RVar::INT: if (v.k != Tok::INT) return bad("type"); if (r.nonzero && !v.i) return bad("zero"); r.i = v.i; break;
        case RVar::STR: if (v.k != Tok::STR) return bad("type"); r.s = v.s; break; }
      return ok(); };
  }
  if (p.kw("debug")) { std::string n = p.str(); p.fin(); if (n != "wal_create" && n != "wal_gc" && n != "wal_read" && n != "memory_gc") throw Err{"debug"}; return [](DState&) { return ok(); }; }
  if (p.kw("checkpoint") || p.kw("service") || p.kw("rebalance")) { p.fin(); return [](DState&) { RExec r = ok(); r.maint = true; return r; }; }
  if (p.kw("create")) {
    if (p.kw("cloud")) {
      bool ine = p.if_not_exists(); std::string n = p.name(); COpt o; cloud_opts(p, o); p.fin();
      return [=](DState& s) { if (s.cloud(n)) return ine ? ok() : bad("exists"); if (o.v.type != "mock" && o.v.type != "s3") return bad("type"); if (!cloud_ok(o.v)) return bad("s3 options"); s.clouds[n] = o.v; return ok(); };
    }
    if (p.kw("storage")) {
      bool ine = p.if_not_exists(); std::string n = p.name(); SOpt o; storage_opts(p, o); p.fin();
      return [=](DState& s) -> RExec {
        if (s.storage(n)) return ine ? ok() : bad("exists"); if (o.v.cloud.size() && !s.cloud(o.v.cloud)) return bad("cloud");
        if (!answers(s, o.v.cloud)) return bad("server");
        for (auto& x : s.storages) if (o.set.count("uuid") && x.second.uuid == o.v.uuid) return bad("uuid in use");
        RStorage v = o.v; if (!o.set.count("compression")) v.compression = s.vars["compression"].s; if (!o.set.count("compression_level") && s.vars["compression"].s.size()) v.level = s.vars["compression_level"].i;
        if (!o.set.count("uuid")) v.uuid = "?"; if (v.encryption == "aes" && v.key.empty()) v.key = "?";
        s.storages.push_back({n, v}); RExec r = ok(); r.adopt = true; return r; };
    }
    p.need("partition"); uint64_t a = p.integer(), b = 0; bool hb = false; if (p.cur().k == Tok::INT) { b = p.integer(); hb = true; } p.fin();
    return [=](DState& s) {
      uint64_t e = hb ? b : a + interval(s); if (a > e) return bad("range");
      std::string dst = s.pipe.empty() ? s.storages[0].first : s.pipe[0].storage;
      std::vector<std::pair<uint64_t, uint64_t>> gaps; uint64_t x = a; bool done = false;
      for (auto& q : s.parts) { if (q.second.max < x) continue; if (q.second.min > e) break; if (q.second.min > x) gaps.push_back({x, q.second.min - 1}); if (q.second.max >= e || q.second.max == UINT64_MAX) { done = true; break; } x = q.second.max + 1; }
      if (!done && x <= e) gaps.push_back({x, e});
      for (auto& g : gaps) { RPart q; q.min = g.first; q.max = g.second; q.storage = dst; s.parts[q.min] = q; }
      return ok(); };
  }
  if (p.kw("drop")) {
    if (p.kw("cloud")) { bool ie = p.if_exists(); std::string n = p.name(); p.fin();
      return [=](DState& s) { if (!s.cloud(n)) return ie ? ok() : bad("no cloud"); for (auto& x : s.storages) if (x.second.cloud == n) return bad("in use"); s.clouds.erase(n); return ok(); }; }
    if (p.kw("storage")) { bool ie = p.if_exists(); std::string n = p.name(); p.fin();
      return [=](DState& s) { if (n == "main") return bad("main"); if (!s.storage(n)) return ie ? ok() : bad("no storage"); for (auto& t : s.pipe) if (t.storage == n) return bad("in pipeline"); if (s.used(n)) return bad("not empty"); if (!answers(s, s.storage(n)->cloud)) return bad("server");
        for (size_t i = 0; i < s.storages.size(); i++) if (s.storages[i].first == n) { s.storages.erase(s.storages.begin() + i); break; } return ok(); }; }
    bool rng = false, ie = false; uint64_t a, b = 0; if (p.kw("partitions")) { rng = true; p.need("between"); a = p.integer(); p.need("and"); b = p.integer(); } else { p.need("partition"); ie = p.if_exists(); a = p.integer(); }
    int what = 3; if (p.kw("on")) { if (p.kw("storage")) what = 1; else { p.need("cloud"); what = 2; } } p.fin();
    auto f = [=](DState& s, RPart* q) { return drop_one(s, q, what); };
    if (rng) return each(a, b, f); return one(a, ie, f);
  }
  if (p.kw("alter")) {
    if (p.kw("pipeline")) {
      std::vector<RTier> v; bool set = false;
      if (!p.kw("reset")) { p.need("set"); set = true;
        for (;;) { RTier t; t.storage = p.name();
          if (p.sym('(')) { if (!p.sym(')')) for (;;) { Tok o = p.next(); if (o.k != Tok::WORD) throw Err{"tier option"}; int64_t* d = o.s == "partitions" ? &t.partitions : o.s == "size" ? &t.size : o.s == "events" ? &t.events : o.s == "duration" ? &t.duration : nullptr; if (!d) throw Err{"tier option"}; *d = (int64_t)p.integer(); if (p.sym(',')) continue; if (!p.sym(')')) throw Err{")"}; break; } }
          v.push_back(t); if (p.sym(',')) continue; break; } }
      p.fin();
      return [=](DState& s) { (void)set; for (auto& t : v) if (!s.storage(t.storage)) return bad("no storage"); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i].storage == v[j].storage) return bad("twice");
        for (size_t i = 0; i + 1 < v.size(); i++) if (v[i].partitions == -1 && v[i].size == -1 && v[i].events == -1 && v[i].duration == -1) return bad("terminal"); s.pipe = v; return ok(); };
    }
    if (p.kw("cloud")) { bool ie = p.if_exists(); std::string n = p.name();
      if (p.kw("rename")) { p.kw("to"); std::string m = p.name(); p.fin();
        return [=](DState& s) { if (!s.cloud(n)) return ie ? ok() : bad("no cloud"); if (s.cloud(m)) return bad("exists"); s.clouds[m] = s.clouds[n]; s.clouds.erase(n); for (auto& x : s.storages) if (x.second.cloud == n) x.second.cloud = m; return ok(); }; }
      p.need("set"); COpt o; cloud_opts(p, o); p.fin(); if (o.set.count("type")) throw Err{"type"};
      return [=](DState& s) { auto c = s.cloud(n); if (!c) return ie ? ok() : bad("no cloud"); RCloud old = *c; if (o.set.count("url")) c->url = o.v.url; if (o.set.count("login")) c->login = o.v.login; if (o.set.count("password")) c->password = o.v.password; if (o.set.count("debug")) c->debug = o.v.debug; if (!cloud_ok(*c)) { *c = old; return bad("s3 options"); } return ok(); };
    }
    p.need("storage"); bool ie = p.if_exists(); std::string n = p.name();
    if (p.kw("rename")) { p.kw("to"); std::string m = p.name(); p.fin();
      return [=](DState& s) { if (n == "main") return bad("main"); if (!s.storage(n)) return ie ? ok() : bad("no storage"); if (s.storage(m)) return bad("exists"); for (auto& x : s.storages) if (x.first == n) x.first = m; for (auto& t : s.pipe) if (t.storage == n) t.storage = m; for (auto& q : s.parts) if (q.second.storage == n) q.second.storage = m; return ok(); }; }
    p.need("set"); SOpt o; storage_opts(p, o); p.fin(); if (o.set.count("uuid")) throw Err{"uuid"};
    return [=](DState& s) -> RExec {
      auto x = s.storage(n); if (!x) return ie ? ok() : bad("no storage"); bool used = s.used(n);
      for (auto k : {"crc", "path", "encryption", "encryption_key"}) if (o.set.count(k) && used) return bad("not empty");
      if (o.set.count("cloud")) { for (auto& q : s.parts) if (q.second.storage == n && q.second.cloud) return bad("on cloud"); if (o.v.cloud.size() && !s.cloud(o.v.cloud)) return bad("no cloud");
        if (o.v.cloud != x->cloud) { if (!answers(s, o.v.cloud)) return bad("server"); if (!same_server(s, o.v.cloud, x->cloud) && !answers(s, x->cloud)) return bad("server"); } }
      auto& v = o.v; auto has = [&](const char* k) { return o.set.count(k) > 0; };
      if (has("path")) x->path = v.path; if (has("cloud")) x->cloud = v.cloud; if (has("cloud_drop_local")) x->cloud_drop_local = v.cloud_drop_local; if (has("sync")) x->sync = v.sync; if (has("crc")) x->crc = v.crc; if (has("refresh_wm")) x->refresh_wm = v.refresh_wm; if (has("region_size")) x->region_size = v.region_size; if (has("compression")) x->compression = v.compression; if (has("compression_level")) x->level = v.level; if (has("encryption")) x->encryption = v.encryption; if (has("encryption_key")) x->key = v.key;
      return ok(); };
  }
  if (p.kw("move")) {
    bool rng = p.kw("partitions"), ie = false; uint64_t a, b = 0; if (rng) { p.need("between"); a = p.integer(); p.need("and"); b = p.integer(); } else { p.need("partition"); ie = p.if_exists(); a = p.integer(); }
    p.need("into"); std::string n = p.name(); p.fin();
    auto f = [=](DState& s, RPart* q) { return refresh_one(s, q, &n); }; if (rng) return each(a, b, f); return one(a, ie, f);
  }
  if (p.kw("refresh")) {
    bool rng = p.kw("partitions"), ie = false; uint64_t a, b = 0; if (rng) { p.need("between"); a = p.integer(); p.need("and"); b = p.integer(); } else { p.need("partition"); ie = p.if_exists(); a = p.integer(); }
    p.fin(); auto f = [=](DState& s, RPart* q) { return refresh_one(s, q, nullptr); }; if (rng) return each(a, b, f); return one(a, ie, f);
  }
  bool up = false; if (p.kw("upload")) up = true; else p.need("download");
  bool rng = p.kw("partitions"), ie = false; uint64_t a, b = 0; if (rng) { p.need("between"); a = p.integer(); p.need("and"); b = p.integer(); } else { p.need("partition"); ie = p.if_exists(); a = p.integer(); }
  bool ic = p.if_cloud(); p.fin();
  auto f = [=](DState& s, RPart* q) { return up ? upload_one(s, q, ic) : download_one(s, q, ic); }; if (rng) return each(a, b, f); return one(a, ie, f);
}
}
RExec ref_exec(DState& s, const std::string& text) {
  try {
    P p; p.v = tokens(text); Exec e = parse_cmd(p); DState n = s; RExec r = e(n);
    if (r.res == R_OK) s = n; else if (n.show(true, true) != s.show(true, true)) { s = n; r.maint = true; }
    return r;
  } catch (Err& e) { return {R_ERR, false, e.why}; }
}
static const char* online_vars[] = {"wal_rotate_wm", "interval", "compression", "compression_level", "ssn", "error_refresh_1", "error_refresh_2", "error_refresh_3", "error_download", "error_upload", "error_wal", "test_bool", "test_int", "test_string", nullptr};
DState read_state(Db& db, bool ps) {
  DState s; J all = parse_json(db.must("show all, clouds, storages, pipeline"));
  for (auto& v : all[(size_t)0].o) { if (v.first == "lsn" || v.first == "ssn" || v.first == "version") continue;
    RVar r; r.t = v.second.k == J::BOOL ? RVar::BOOL : v.second.k == J::INT ? RVar::INT : RVar::STR; r.online = false; for (int i = 0; online_vars[i]; i++) if (v.first == online_vars[i]) r.online = true;
    r.hidden = false; r.saved = v.first != "directory"; r.nonzero = v.first == "interval"; r.i = v.second.k == J::BOOL ? v.second.b : v.second.u; r.s = v.second.s; s.vars[v.first] = r; }
  static const char* hid[] = {"error_refresh_1", "error_refresh_2", "error_refresh_3", "error_download", "error_upload", "error_wal", "test_bool", "test_int", "test_string"};
  J h = parse_json(db.must("show error_refresh_1, error_refresh_2, error_refresh_3, error_download, error_upload, error_wal, test_bool, test_int, test_string, ssn"));
  for (int i = 0; i < 9; i++) { const J& v = h[(size_t)i]; RVar r; r.t = v.k == J::BOOL ? RVar::BOOL : v.k == J::INT ? RVar::INT : RVar::STR; r.online = true; r.hidden = true; r.saved = false; r.nonzero = false; r.i = v.k == J::BOOL ? v.b : v.u; r.s = v.s; s.vars[hid[i]] = r; }
  { RVar r; r.t = RVar::INT; r.online = true; r.hidden = false; r.saved = false; r.nonzero = false; r.i = h[(size_t)9].u; s.vars["ssn"] = r; }
  J cfg = parse_json(fs::read_file(db.path + "/config.json"));
  std::map<std::string, std::string> pass, key; for (auto& c : cfg["clouds"].a) pass[c["name"].s] = c["password"].s; for (auto& c : cfg["storages"].a) key[c["uuid"].s] = c["encryption_key"].s;
  for (auto& c : all[1].o) { RCloud r; r.type = c.second["type"].s; r.login = c.second["login"].s; r.url = c.second["url"].s; r.debug = c.second["debug"].b; r.password = pass[c.first]; s.clouds[c.first] = r; }
  for (auto& c : all[2].o) { auto& x = c.second["config"]; RStorage r; r.uuid = x["uuid"].s; r.path = x["path"].s; r.cloud = x["cloud"].s; r.cloud_drop_local = x["cloud_drop_local"].b; r.sync = x["sync"].b; r.crc = x["crc"].b; r.refresh_wm = x["refresh_wm"].u; r.region_size = x["region_size"].u; r.compression = x["compression"].s; r.level = x["compression_level"].u; r.encryption = x["encryption"].s; r.key = key[r.uuid]; s.storages.push_back({c.first, r}); }
  for (auto& t : all[3].a) s.pipe.push_back({t["name"].s, t["partitions"].i, t["size"].i, t["events"].i, t["duration"].i});
  if (ps) for (auto& p : partitions(db)) { RPart q; q.min = p.min; q.max = p.max; q.storage = p.storage; q.local = p.in_storage; q.cloud = p.in_cloud; s.parts[q.min] = q; }
  return s;
}
void adopt(DState& w, const DState& g) {
  std::set<std::string> ids;
  for (auto& x : w.storages) { auto y = const_cast<DState&>(g).storage(x.first); if (!y) continue;
    if (x.second.uuid == "?") { if (!uuid_ok(y->uuid)) fail("generated storage identity is malformed", "%s", y->uuid.c_str()); x.second.uuid = y->uuid; }
    if (x.second.key == "?") { if (y->key.size() != 32) fail("generated encryption key is malformed", "%zu bytes", y->key.size()); x.second.key = y->key; } }
  for (auto& x : w.storages) if (!ids.insert(x.second.uuid).second) fail("two storages have the same identity", "%s", x.second.uuid.c_str());
}

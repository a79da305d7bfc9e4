#include "db.h"
#include "race.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>

std::string quote(const std::string& s) {
  std::string r = "\""; size_t n = 0;
  for (unsigned char c : s) { if (n++ > 24) { r += strf("..(%zu)", s.size()); break; } if (c < 32 || c > 126 || c == '"') r += strf("\\x%02x", c); else r += c; }
  return r + "\"";
}
std::string show_key(const Key& k) { return strf("%" PRIu64, k.first) + (k.second.empty() ? "" : "/" + quote(k.second)); }
std::string show(const Ev& e) { return (e.del ? "-" : "+") + show_key({e.id, e.key}) + (e.del ? "" : "=" + quote(e.val)); }
std::string show(const std::vector<Ev>& b) { std::string s = "["; size_t n = 0; for (auto& e : b) { if (n++) s += " "; if (n > 12) { s += strf("...(%zu)", b.size()); break; } s += show(e); } return s + "]"; }
std::string show(const Model& m, size_t lim) { std::string s = "{"; size_t n = 0; for (auto& e : m) { if (n++ >= lim) { s += strf(" ...(%zu)", m.size()); break; } s += " " + show_key(e.first) + "=" + quote(e.second); } return s + " }"; }
void upd(Model& m, const std::vector<Ev>& b) { for (auto& e : b) if (e.del) m.erase({e.id, e.key}); else m[{e.id, e.key}] = e.val; }
uint64_t hash_model(const Model& m) {
  uint64_t h = 88172645463325252ull;
  auto mix = [&](uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; };
  for (auto& e : m) { mix(e.first.first); for (unsigned char c : e.first.second) mix(c + 1); mix(300 + e.second.size()); mix(std::hash<std::string>()(e.second)); }
  return h;
}

std::vector<std::string> base_conf() {
  return {"set log to false", "set log_to_file to false", "set workers to 0", "set workers_upload to 0",
          "set serial to false", "set interval to 10", "set mm_page_size to 65536", "set mm_cache to 16777216"};
}
Db::Db() : path(std::string(fs::ROOT) + "/db"), pre(base_conf()) {}
Db::~Db() { if (h) { monotone_free(h); h = nullptr; } }
bool Db::watch = false;
HeapWatch::~HeapWatch() { Db::watch = false; heap::track(false); }
bool Db::init() {
  if (watch) heap::track(true);
  h = monotone_init(); if (!h) { err = "init failed"; return false; }
  for (auto& p : pre) if (monotone_execute(h, p.c_str(), nullptr) == -1) { const char* e = monotone_error(h); err = p + ": " + (e ? e : ""); return false; }
  return true;
}
bool Db::open() {
  if (!init()) { fail("harness: configuration rejected", "%s", err.c_str()); }
  if (g_ctx) g_ctx->op();
  if (monotone_open(h, path.c_str()) == -1) { const char* e = monotone_error(h); err = e ? e : ""; return false; }
  return true;
}
void Db::close() { if (!h) return; monotone_free(h); h = nullptr; if (watch && heap::live() && !std::uncaught_exceptions()) { std::string l = heap::list(); heap::track(false); fail("memory not returned on close", "%s", l.c_str()); } }
bool Db::elsewhere = false;
// a lock which an operation leaves behind is only seen by other threads
static bool away(const std::function<bool()>& f) {
  if (!Db::elsewhere || sched::exploring() || sched::self() != 0) return f();
  bool r = false; std::exception_ptr x;
  sched::run_solo([&] { try { r = f(); } catch (...) { x = std::current_exception(); } }, "client");
  if (x) std::rethrow_exception(x);
  return r;
}
bool Db::exec(const std::string& c) { return exec(c, nullptr); }
bool Db::exec(const std::string& c, std::string* out) {
  if (g_ctx) g_ctx->op();
  return away([&] {
    char* res = nullptr; int rc = monotone_execute(h, c.c_str(), out ? &res : nullptr);
    if (rc == -1) { const char* e = monotone_error(h); err = e ? e : ""; }
    if (res) { if (out) *out = res; free(res); }
    return rc == 0; });
}
std::string Db::must(const std::string& c) { std::string o; if (!exec(c, &o)) fail("command failed: " + c.substr(0, c.find_first_of("0123456789'")), "%s: %s", c.c_str(), err.c_str()); return o; }
bool Db::write(const std::vector<Ev>& b) {
  std::vector<monotone_event_t> v(b.size());
  for (size_t i = 0; i < b.size(); i++) { auto& e = v[i]; e.flags = b[i].del ? MONOTONE_DELETE : 0; e.id = b[i].id; e.key = (void*)b[i].key.data(); e.key_size = b[i].key.size(); e.value = (void*)b[i].val.data(); e.value_size = b[i].val.size(); if (b[i].key.empty()) e.key = nullptr; if (b[i].val.empty()) e.value = nullptr; }
  return write_raw(v);
}
bool Db::write_raw(std::vector<monotone_event_t>& v) {
  if (g_ctx) g_ctx->op(v.size() ? v.size() : 1);
  return away([&] {
    int rc = monotone_write(h, v.data(), (int)v.size());
    if (rc == -1) { const char* e = monotone_error(h); err = e ? e : ""; }
    return rc == 0; });
}
void Db::must_write(const std::vector<Ev>& b) { if (!write(b)) fail("write failed", "write %s: %s", show(b).c_str(), err.c_str()); }
bool Db::scan(std::vector<std::pair<Key, std::string>>* out, const Key* from, size_t limit) {
  monotone_event_t k; memset(&k, 0, sizeof k);
  if (from) { k.id = from->first; k.key_size = from->second.size(); k.key = k.key_size ? (void*)from->second.data() : nullptr; }
  if (g_ctx) g_ctx->op();
  auto c = monotone_cursor(h, nullptr, from ? &k : nullptr);
  if (!c) { const char* e = monotone_error(h); err = e ? e : "cursor"; return false; }
  bool ok = true; size_t n = 0;
  for (;;) {
    monotone_event_t e; memset(&e, 0, sizeof e);
    int rc = monotone_read(c, &e);
    if (rc == -1) { const char* x = monotone_error(h); err = x ? x : "read"; ok = false; break; }
    if (rc == 0) break;
    if (out) out->push_back({{e.id, std::string((char*)e.key, e.key_size)}, std::string((char*)e.value, e.value_size)});
    if (++n >= limit) break;
    if (n > 4000000) { err = "endless scan"; ok = false; break; }
    rc = monotone_next(c);
    if (rc == -1) { const char* x = monotone_error(h); err = x ? x : "next"; ok = false; break; }
  }
  monotone_free(c);
  return ok;
}
std::string diff(const Model& want, const std::vector<std::pair<Key, std::string>>& got) {
  auto i = want.begin(); size_t j = 0;
  for (; i != want.end() && j < got.size(); ++i, ++j) {
    if (i->first != got[j].first) return strf("event %zu: expected %s, got %s (expected %zu events, got %zu)", j, show_key(i->first).c_str(), show_key(got[j].first).c_str(), want.size(), got.size());
    if (i->second != got[j].second) return strf("event %zu (%s): expected value %s, got %s", j, show_key(i->first).c_str(), quote(i->second).c_str(), quote(got[j].second).c_str());
  }
  if (i != want.end()) return strf("scan ended after %zu events, expected %s next (%zu events)", got.size(), show_key(i->first).c_str(), want.size());
  if (j < got.size()) return strf("extra event %s after the expected %zu", show_key(got[j].first).c_str(), want.size());
  return "";
}
Model to_model(const std::vector<std::pair<Key, std::string>>& got) { Model m; for (auto& g : got) m[g.first] = g.second; return m; }
bool scan_equals(Db& db, const Model& m, std::string* why) {
  std::vector<std::pair<Key, std::string>> got;
  if (!db.scan(&got)) { *why = "scan error: " + db.err; return false; }
  *why = diff(m, got); return why->empty();
}
void check_scan(Db& db, const Model& m, const std::string& sig, const Key* from, size_t limit) {
  std::vector<std::pair<Key, std::string>> got;
  if (!db.scan(&got, from, limit)) fail(sig + ": read error", "%s", db.err.c_str());
  if (!from && limit == SIZE_MAX) { std::string d = diff(m, got); if (!d.empty()) fail(sig, "%s", d.c_str()); return; }
  Model w; auto i = from ? m.lower_bound(*from) : m.begin(); for (size_t n = 0; i != m.end() && n < limit; ++i, ++n) w.insert(*i);
  std::string d = diff(w, got); if (!d.empty()) fail(sig, "from %s: %s", from ? show_key(*from).c_str() : "-", d.c_str());
}

// ---- JSON
static J jnull;
const J& J::operator[](const std::string& k) const { for (auto& x : o) if (x.first == k) return x.second; return jnull; }
const J& J::operator[](size_t i) const { if (this->k == ARR) return i < a.size() ? a[i] : jnull; return i < o.size() ? o[i].second : jnull; }
bool J::has(const std::string& k) const { for (auto& x : o) if (x.first == k) return true; return false; }
static void ws(const char*& p) { while (*p && strchr(" \t\r\n", *p)) p++; }
static J pj(const char*& p) {
  J j; ws(p);
  if (*p == '{') { j.k = J::OBJ; p++; ws(p); while (*p && *p != '}') { J k = pj(p); ws(p); if (*p == ':') p++; J v = pj(p); j.o.push_back({k.s, v}); ws(p); if (*p == ',') p++; ws(p); } if (*p) p++; }
  else if (*p == '[') { j.k = J::ARR; p++; ws(p); while (*p && *p != ']') { j.a.push_back(pj(p)); ws(p); if (*p == ',') p++; ws(p); } if (*p) p++; }
  else if (*p == '"') { j.k = J::STR; p++; while (*p && *p != '"') { if (*p == '\\' && (p[1] == '"' || p[1] == '\\')) p++; j.s += *p++; } if (*p) p++; }
  else if (!strncmp(p, "true", 4)) { j.k = J::BOOL; j.b = true; p += 4; }
  else if (!strncmp(p, "false", 5)) { j.k = J::BOOL; p += 5; }
  else if (!strncmp(p, "null", 4)) { p += 4; }
  else { char* e; j.k = J::INT; if (*p == '-') { j.i = strtoll(p, &e, 10); j.u = (uint64_t)j.i; } else { j.u = strtoull(p, &e, 10); j.i = (int64_t)j.u; } if (*e == '.' || *e == 'e') { j.k = J::REAL; j.d = strtod(p, &e); } if (e == p) e++; p = e; }
  return j;
}
J parse_json(const std::string& s) { const char* p = s.c_str(); return pj(p); }

#include "run.h"
#include "fs.h"
#include "sched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sched.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <atomic>
#include <map>
#include <set>
#include <algorithm>

extern "C" { int __real_clock_gettime(clockid_t, struct timespec*); int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_write(int, const void*, size_t); int __real_mkdir(const char*, mode_t); pid_t __real_getpid(void); void* __real_mmap(void*, size_t, int, int, int, off_t); unsigned __real_usleep(useconds_t); }

static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string strf(const char* fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }

static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
void add_prop(const Prop& p) { props().push_back(p); }

enum { NSLOT = 256, NW = 64, NITEM = 64, NSAMPLE = 6 };
struct Slot { std::atomic<int> ready; uint64_t gidx; char sig[512]; char detail[16384]; int npc; void* pc[24]; };
struct Item { std::atomic<int> used; char name[64]; std::atomic<uint64_t> n; };
struct Shared {
  std::atomic<uint64_t> next, done, ops, execs, states, slots, lost;
  std::atomic<int> stop;
  std::atomic<uint64_t> cur[NW];
  Slot slot[NSLOT];
  Item item[NITEM];
  std::atomic<int> nsample; char sample[NSAMPLE][2048];
  uint64_t setmask; std::atomic<uint64_t> set[1];
};
static Shared* sh;
static int wid = -1;
static uint64_t gcur = 0;
Ctx* g_ctx = nullptr;
static bool single_mode = false;

void Ctx::note(const char* fmt, ...) {
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (trail.size() < 200000) { trail += b; trail += "\n"; }
  if (verbose) { printf("  %s\n", b); fflush(stdout); }
}
static uint64_t l_ops, l_execs;
void Ctx::op(uint64_t n) { l_ops += n; }
void Ctx::exec(uint64_t n) { l_execs += n; }
void Ctx::state(uint64_t h) {
  if (!h) h = 1;
  uint64_t m = sh->setmask, i = (h * 0x9E3779B97F4A7C15ull) >> 20 & m;
  for (int k = 0; k < 64; k++, i = (i + 1) & m) {
    uint64_t v = sh->set[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) { if (sh->set[i].compare_exchange_strong(v, h)) { sh->states++; return; } if (v == h) return; }
  }
  sh->lost++;
}
void Ctx::sample(const std::string& s) {
  int k = sh->nsample.load(); if (k >= NSAMPLE) return;
  k = sh->nsample++; if (k >= NSAMPLE) return;
  snprintf(sh->sample[k], sizeof sh->sample[k], "%s", s.c_str());
}
void Ctx::want(const char* w) { want(w, 1); }
void Ctx::want(const char* w, uint64_t n) {
  static std::map<std::string, int> cache;
  auto c = cache.find(w); if (c != cache.end()) { sh->item[c->second].n += n; return; }
  for (int i = 0; i < NITEM; i++) {
    int u = sh->item[i].used.load();
    if (u == 0 && sh->item[i].used.compare_exchange_strong(u, 1)) { snprintf(sh->item[i].name, 64, "%s", w); sh->item[i].used = 2; u = 2; }
    while (sh->item[i].used.load() == 1) {}
    if (!strcmp(sh->item[i].name, w)) { cache[w] = i; sh->item[i].n += n; return; }
  }
}

void fail(const std::string& sig, const char* fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw Fail{sig, b}; }

static void put_slot(const char* sig, const char* detail, int npc, void** pc) {
  uint64_t k = sh->slots++; if (k >= NSLOT) return;
  Slot& s = sh->slot[k]; s.gidx = gcur; snprintf(s.sig, sizeof s.sig, "%s", sig); snprintf(s.detail, sizeof s.detail, "%s", detail);
  s.npc = npc; for (int i = 0; i < npc && i < 24; i++) s.pc[i] = pc[i];
  s.ready = 1;
}
static void flush_counts() { sh->ops += l_ops; sh->execs += l_execs; l_ops = l_execs = 0; }
static std::string full_detail(const std::string& d) {
  std::string t = g_ctx ? g_ctx->trail : ""; size_t lim = 12000;
  if (t.size() > lim) t = t.substr(0, 3000) + "\n ...\n" + t.substr(t.size() - (lim - 3000));
  return d + "\n--- trail ---\n" + t;
}
void fail_now(const std::string& sig, const std::string& detail) {
  put_slot(sig.c_str(), full_detail(detail).c_str(), 0, nullptr); flush_counts();
  if (single_mode) printf("FAIL %s: %s\n", sig.c_str(), detail.c_str());
  fflush(stdout); _exit(3);
}
static char assert_msg[512];
extern "C" void __wrap___assert_fail(const char* e, const char* f, unsigned line, const char* fn) {
  const char* b = strrchr(f, '/'); snprintf(assert_msg, sizeof assert_msg, "assertion failed: %s (%s, %s)", e, b ? b + 1 : f, fn); (void)line;
  abort();
}
static void on_sig(int s) {
  static volatile int in = 0; if (in) _exit(5); in = 1;
  char sig[600];
  if (s == SIGPROF) snprintf(sig, sizeof sig, "hang");
  else if (assert_msg[0]) snprintf(sig, sizeof sig, "%s", assert_msg);
  else snprintf(sig, sizeof sig, "crash: %s", s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIGILL");
  void* pc[24]; int n = backtrace(pc, 24);
  std::string d; if (g_ctx) d = full_detail(sig);
  put_slot(sig, d.c_str(), n, pc);
  flush_counts();
  if (single_mode) { printf("FAIL %s\n", sig); backtrace_symbols_fd(pc, n, 1); }
  fflush(stdout);
  _exit(4);
}
static void install() {
  static char* alt = (char*)malloc(1 << 17); stack_t st; st.ss_sp = alt; st.ss_size = 1 << 17; st.ss_flags = 0; sigaltstack(&st, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
  void* x[2]; backtrace(x, 2);
}
static void cpu_limit(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

static std::vector<Family> fams; static std::vector<uint64_t> base; static uint64_t total;
static bool thorough = false;
static uint64_t stride = 1;   // development aid: every n-th case only (reported as not exhaustive)
static std::string case_name(uint64_t g) { size_t f = std::upper_bound(base.begin(), base.end(), g) - base.begin() - 1; return fams[f].name + "#" + std::to_string(g - base[f]); }

static void run_case(uint64_t g, bool verbose) {
  size_t f = std::upper_bound(base.begin(), base.end(), g) - base.begin() - 1;
  static Ctx* keep = nullptr; delete keep; keep = new Ctx; g_ctx = keep; g_ctx->thorough = thorough; g_ctx->verbose = verbose; g_ctx->index = g - base[f];
  gcur = g; assert_msg[0] = 0;
  cpu_limit(thorough ? 300 : 60);
  fams[f].run(*g_ctx, g - base[f]);
  cpu_limit(0);
}
static void worker(int w, double deadline) {
  wid = w; install(); sched::init();
#ifndef __SANITIZE_ADDRESS__
  struct rlimit rl = { 3ul << 30, 3ul << 30 }; setrlimit(RLIMIT_AS, &rl);   // code under test which asks for much more memory must not take the machine with it
#endif
  int nul = __real_open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); __real_close(nul); }
  // one CPU per worker: baton passing between simulated threads is then cheap
  cpu_set_t set; if (sched_getaffinity(0, sizeof set, &set) == 0) { int n = CPU_COUNT(&set), k = 0, want = w % n; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &set)) { if (k++ == want) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } } }
  uint64_t n = 0;
  for (;;) {
    if (sh->stop.load() || wall() > deadline) break;
    uint64_t g = sh->next++ * stride; if (g >= total) break;
    sh->cur[w] = g + 1;
    try { run_case(g, false); }
    catch (Fail& e) { put_slot(e.sig.c_str(), full_detail(e.detail).c_str(), 0, nullptr); flush_counts(); sh->cur[w] = 0; sh->done++; _exit(3); }
    sh->done++; sh->cur[w] = 0; n++;
    if ((n & 15) == 0) flush_counts();
    if ((n & 255) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 1500000) { flush_counts(); _exit(7); } }
  }
  flush_counts(); _exit(0);
}
static std::string jstr(const std::string& s) {
  std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += c; } return r + "\"";
}
struct Known { std::string prop, sig, text; };
static std::vector<Known> load_known(const std::string& file) {
  std::vector<Known> v; FILE* f = fopen(file.c_str(), "r"); if (!f) return v; char b[4096];
  while (fgets(b, sizeof b, f)) {
    std::string s = b; while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    if (s.compare(0, 7, "known: ")) continue;
    // known: property=<id> sig=<<signature>> text
    auto p = s.find("property="), q = s.find("sig=<<"), r = s.find(">>"); if (p == std::string::npos || q == std::string::npos || r == std::string::npos) continue;
    Known k; k.prop = s.substr(p + 9, s.find(' ', p) - p - 9); k.sig = s.substr(q + 6, r - q - 6); k.text = s.substr(std::min(s.size(), r + 3)); v.push_back(k);
  }
  fclose(f); return v;
}
static std::string exe_path;
static std::string symbolize(Slot& s) {
  if (s.npc == 0) return "";
  std::string cmd = "addr2line -f -p -s -e " + exe_path; for (int i = 0; i < s.npc && i < 24; i++) cmd += strf(" %p", (void*)((char*)s.pc[i] - 1));
  cmd += " 2>/dev/null"; FILE* f = popen(cmd.c_str(), "r"); std::string r; char b[512]; if (f) { while (fgets(b, sizeof b, f)) r += std::string("    ") + b; pclose(f); } return r;
}

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  char lp[4096]; ssize_t ln = readlink("/proc/self/exe", lp, sizeof lp - 1); if (ln > 0) { lp[ln] = 0; exe_path = lp; }
  std::string id; int64_t one = -1; std::string one_name; int jobs = 0; double budget = 0; bool list = false; std::string famfilter; size_t max_viol = 5;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--case" && i + 1 < argc) one_name = argv[++i];
    else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
    else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
    else if (a == "--family" && i + 1 < argc) famfilter = argv[++i];
    else if (a == "--stride" && i + 1 < argc) stride = std::max(1, atoi(argv[++i]));
    else if (a == "--first") max_viol = 1;
    else if (a == "--list") list = true;
    else id = a;
  }
  const char* tier = getenv("VERIF_TIER"); thorough = tier && !strcmp(tier, "thorough");
  const char* seed = getenv("VERIF_SEED"); const char* vd = getenv("VERIF_DIR"); std::string dir = vd ? vd : ".";
  if (budget == 0) { const char* b = getenv("VERIF_BUDGET"); budget = b ? atof(b) : thorough ? 5400 : 540; }
  Prop* P = nullptr; for (auto& p : props()) if (p.id == id) P = &p;
  if (!P) { fprintf(stderr, "unknown property %s; have:", id.c_str()); for (auto& p : props()) fprintf(stderr, " %s", p.id.c_str()); fprintf(stderr, "\n"); return 2; }
  double t0 = wall();
  P->families(thorough, fams);
  if (!famfilter.empty()) { std::vector<Family> f2; for (auto& f : fams) if (f.name.find(famfilter) != std::string::npos) f2.push_back(f); fams = f2; }
  for (auto& f : fams) { base.push_back(total); total += f.count; }
  if (list) { for (auto& f : fams) printf("%s %lu\n", f.name.c_str(), f.count); return 0; }
  size_t setn = 1u << 23; size_t bytes = sizeof(Shared) + setn * 8;
  sh = (Shared*)__real_mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh->setmask = setn - 1;
  if (!one_name.empty()) {
    auto h = one_name.rfind('#'); std::string fn = one_name.substr(0, h); uint64_t k = strtoull(one_name.c_str() + h + 1, nullptr, 10);
    for (size_t f = 0; f < fams.size(); f++) if (fams[f].name == fn && k < fams[f].count) one = base[f] + k;
    if (one < 0) { fprintf(stderr, "no such case\n"); return 2; }
    single_mode = true; install(); sched::init();
    printf("case %s\n", case_name(one).c_str());
    try { run_case(one, true); } catch (Fail& e) { printf("FAIL %s: %s\n", e.sig.c_str(), e.detail.c_str()); return 1; }
    printf("ok\n"); return 0;
  }
  if (jobs <= 0) { cpu_set_t set; jobs = sched_getaffinity(0, sizeof set, &set) == 0 ? CPU_COUNT(&set) : 8; if (jobs > 16) jobs = 16; }
  if (jobs > NW) jobs = NW;
  auto known = load_known(dir + "/known-findings.txt");
  double deadline = t0 + budget;
  std::vector<pid_t> pid(jobs, 0);
  auto spawn = [&](int w) { fflush(stdout); pid_t p = fork(); if (p == 0) worker(w, deadline); pid[w] = p; };
  for (int w = 0; w < jobs; w++) spawn(w);
  std::map<std::string, uint64_t> viol, knownhit; std::vector<std::string> lines; uint64_t seen = 0; uint64_t nviol = 0;
  std::vector<uint64_t> hangs, killed;
  auto drain = [&]() {
    for (; seen < sh->slots.load() && seen < NSLOT; seen++) {
      Slot& s = sh->slot[seen]; if (!s.ready.load()) break;
      std::string sig = s.sig; std::string cn = case_name(s.gidx);
      if (sig == "hang") { hangs.push_back(s.gidx); continue; }
      bool kn = false; for (auto& k : known) if (k.prop == id && sig == k.sig) { kn = true; knownhit[k.sig]++; }
      if (kn) continue;
      nviol++;
      if (viol.count(sig)) { viol[sig]++; continue; }
      viol[sig] = 1;
      std::string out = dir + "/out"; __real_mkdir(out.c_str(), 0755);
      std::string file = out + "/" + id + "-" + std::to_string(viol.size()) + ".txt";
      FILE* f = fopen(file.c_str(), "w");
      if (f) { fprintf(f, "property %s\ncase %s\nsignature %s\nreplay: VERIF_TIER=%s bash /verif/mc/check.sh %s --case '%s'\n\n%s\n%s", id.c_str(), cn.c_str(), sig.c_str(), thorough ? "thorough" : "quick", id.c_str(), cn.c_str(), s.detail, symbolize(s).c_str()); fclose(f); }
      lines.push_back(strf("VIOLATION property=%s replay=%s", id.c_str(), file.c_str()) + " (" + cn + ": " + sig + ")");
      printf("%s\n", lines.back().c_str()); fflush(stdout);
      if (viol.size() >= max_viol) sh->stop = 1;
    }
    if (nviol >= 40 || seen >= NSLOT - 8) sh->stop = 1;
  };
  int live = jobs; uint64_t broken = 0;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
    int w = -1; for (int i = 0; i < jobs; i++) if (pid[i] == p) w = i;
    if (w < 0) continue;
    drain();
    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!clean && !(WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4 || WEXITSTATUS(st) == 7))) {
      // killed from outside (memory of the machine ran out): no verdict, the case is run again alone
      bool outside = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && sh->cur[w].load();
      if (outside) killed.push_back(sh->cur[w].load() - 1);
      broken++; fprintf(stderr, "harness: worker ended abnormally (status %d) in case %s\n", st, sh->cur[w].load() ? case_name(sh->cur[w].load() - 1).c_str() : "-");
      if (broken > 20) sh->stop = 1;
      if (!outside && sh->cur[w].load()) { gcur = sh->cur[w].load() - 1; put_slot(strf("process ended unexpectedly (status %d)", st).c_str(), "", 0, nullptr); drain(); }
    }
    sh->cur[w] = 0;
    if (!clean && !sh->stop.load() && wall() < deadline && sh->next.load() * stride < total) spawn(w); else { pid[w] = 0; live--; }
  }
  drain();
  // a case that used up its CPU time is run again alone with a larger limit before it counts
  std::sort(hangs.begin(), hangs.end()); hangs.erase(std::unique(hangs.begin(), hangs.end()), hangs.end());
  if (hangs.size() > 2) hangs.resize(2);
  for (auto k : killed) if (viol.empty() && hangs.size() < 8) hangs.push_back(k); else break;
  for (size_t i = 0; i < hangs.size(); i++) {
    pid_t p = fork();
    if (p == 0) { install(); sched::init(); gcur = hangs[i]; size_t f = std::upper_bound(base.begin(), base.end(), gcur) - base.begin() - 1; g_ctx = new Ctx; g_ctx->thorough = thorough; g_ctx->index = gcur - base[f]; cpu_limit(150);
      try { fams[f].run(*g_ctx, gcur - base[f]); } catch (Fail& e) { put_slot(e.sig.c_str(), full_detail(e.detail).c_str(), 0, nullptr); _exit(3); } _exit(0); }
    int st; waitpid(p, &st, 0); size_t nh = hangs.size(); drain(); bool hung = hangs.size() > nh; hangs.resize(nh);
    if (WIFSIGNALED(st)) { gcur = hangs[i]; put_slot(strf("process ended unexpectedly (status %d)", st).c_str(), "", 0, nullptr); drain(); }
    else if (WEXITSTATUS(st) == 0 && std::find(killed.begin(), killed.end(), hangs[i]) != killed.end()) sh->done++;
    if (hung) {
      std::string out = dir + "/out"; __real_mkdir(out.c_str(), 0755); std::string cn = case_name(hangs[i]);
      std::string file = out + "/" + id + "-hang.txt"; FILE* f = fopen(file.c_str(), "w"); if (f) { fprintf(f, "property %s\ncase %s does not terminate\nreplay: bash /verif/mc/check.sh %s --case '%s'\n", id.c_str(), cn.c_str(), id.c_str(), cn.c_str()); fclose(f); }
      viol["hang"]++; printf("VIOLATION property=%s replay=%s (%s: does not terminate)\n", id.c_str(), file.c_str(), cn.c_str());
    }
  }
  for (auto& k : known) if (k.prop == id && knownhit.count(k.sig)) printf("KNOWN-FINDING: property=%s %s [%s] (%lu cases)\n", id.c_str(), k.text.c_str(), k.sig.c_str(), (unsigned long)knownhit[k.sig]);
  bool exhaustive = stride == 1 && sh->done.load() >= total && viol.empty();
  double w = wall() - t0;
  __real_mkdir((dir + "/evidence").c_str(), 0755);
  std::string ev = dir + "/evidence/" + id + ".json"; FILE* f = fopen(ev.c_str(), "w");
  if (f) {
    fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": %s,\n \"coverage\": {\n", jstr(id).c_str(), thorough ? "thorough" : "quick", seed ? atoi(seed) : 0, jstr(P->level).c_str());
    if (P->level == "model_checking") fprintf(f, "  \"states\": %lu,\n  \"transitions\": %lu,\n  \"traces_validated_against_impl\": %lu,\n", (unsigned long)sh->states.load(), (unsigned long)sh->ops.load(), (unsigned long)sh->execs.load());
    else fprintf(f, "  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %lu,\n  \"operations\": %lu,\n", (unsigned long)sh->execs.load(), (unsigned long)sh->states.load(), (unsigned long)sh->ops.load());
    fprintf(f, "  \"cases_total\": %lu,\n  \"cases_done\": %lu,\n  \"exhaustive\": %s,\n  \"rule\": %s,\n", (unsigned long)total, (unsigned long)std::min<uint64_t>(sh->done.load(), total), exhaustive ? "true" : "false", jstr(P->rule).c_str());
    fprintf(f, "  \"families\": {"); for (size_t i = 0; i < fams.size(); i++) fprintf(f, "%s%s: %lu", i ? ", " : "", jstr(fams[i].name).c_str(), (unsigned long)fams[i].count); fprintf(f, "},\n");
    fprintf(f, "  \"counts\": {"); bool first = true; for (auto& it : sh->item) if (it.used.load() == 2) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jstr(it.name).c_str(), (unsigned long)it.n.load()); first = false; } fprintf(f, "},\n");
    fprintf(f, "  \"samples\": ["); for (int i = 0; i < std::min<int>(NSAMPLE, sh->nsample.load()); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(sh->sample[i]).c_str()); fprintf(f, "]\n },\n");
    fprintf(f, " \"assumptions\": ["); for (size_t i = 0; i < P->assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(P->assumptions[i]).c_str()); fprintf(f, "],\n");
    fprintf(f, " \"wall_s\": %.2f,\n \"violations\": %lu\n}\n", w, (unsigned long)viol.size());
    fclose(f);
  }
  printf("%s: %lu/%lu cases, %lu executions, %lu operations, %lu distinct states, %.1fs%s\n", id.c_str(), (unsigned long)std::min<uint64_t>(sh->done.load(), total), (unsigned long)total, (unsigned long)sh->execs.load(), (unsigned long)sh->ops.load(), (unsigned long)sh->states.load(), w, exhaustive ? "" : " (not exhaustive)");
  return viol.empty() ? 0 : 1;
}

#include <algorithm>
#include "sched.h"
#include "fs.h"
#include "race.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unordered_map>
#include <deque>
#include <memory>

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
}

namespace sched {
void (*on_deadlock)(const std::string&) = nullptr;
uint64_t total_points = 0;
enum St { RUN, BLOCKED, TIMED, DONE };
struct T {
  int id; std::string name; St st = RUN; const char* why = ""; void* obj = nullptr;
  sem_t go; pthread_t real; struct Os* os = nullptr; bool has_real = false; bool joined = false; bool timeout = false;
  std::function<void()> fn; void* (*cfn)(void*) = nullptr; void* carg = nullptr; void* ret = nullptr;
};
static std::vector<std::unique_ptr<T>> th;
static T* cur = nullptr;
static __thread T* me = nullptr;

struct Mx { T* owner = nullptr; };
struct Rw { int readers = 0; T* writer = nullptr; };
struct Cv { std::deque<T*> w; };
static std::unordered_map<void*, Mx> mxs;
static std::unordered_map<void*, Rw> rws;
static std::unordered_map<void*, Cv> cvs;

static Exec* ex = nullptr;
static int budget_left = 0;
static bool fs_pts = false, un_pts = false;
static size_t pos = 0;
static const uint64_t HORIZON = 60000;
uint64_t max_steps() { return HORIZON; }
bool exploring() { return ex != nullptr; }

std::string describe() {
  std::string s;
  static const char* n[] = {"run", "blocked", "timed", "done"};
  for (auto& t : th) { if (t->st == DONE && t->joined) continue; s += "[" + t->name + ":" + n[t->st] + (t->st == BLOCKED ? std::string(" in ") + t->why : "") + (t.get() == cur ? "*" : "") + "]"; }
  return s;
}
static void dead(const std::string& w) { if (on_deadlock) on_deadlock(w); fprintf(stderr, "deadlock: %s\n", w.c_str()); _exit(97); }

static bool hb_on = false;
#define HB(x) do { if (hb_on) race::x; } while (0)
static int choose(int n) {
  if (!ex || n <= 1) return 0;
  int k = 0;
  if (pos < ex->prefix.size()) {
    k = ex->prefix[pos].pick;
    if (ex->prefix[pos].n != n) { ex->diverged = true; if (k >= n) k = 0; }
  } else if (budget_left <= 0) return 0;
  pos++;
  if (k) budget_left--;
  ex->trace.push_back({(uint16_t)n, (uint16_t)k});
  return k;
}
static T* solo = nullptr;
// runnable threads other than the given one, in round-robin order after it
static void runnable(std::vector<T*>& v, T* except) {
  size_t n = th.size(), from = except ? except->id : 0;
  for (size_t i = 1; i <= n; i++) { T* t = th[(from + i) % n].get(); if (t != except && t->st == RUN) v.push_back(t); }
  if (solo && !ex) std::stable_partition(v.begin(), v.end(), [](T* t) { return t == solo || t->id == 0; });
}

static void switch_to(T* t) {
  T* m = me;
  if (t == m) return;
  if (ex) ex->switches++;
  cur = t;
  sem_post(&t->go);
  if (m->st != DONE) { while (sem_wait(&m->go) != 0) {} }
}
// current thread cannot continue: pick somebody else
static void block_switch() {
  std::vector<T*> v; runnable(v, me);
  if (v.empty()) {
    // a timed waiter may time out
    for (auto& t : th) if (t->st == TIMED) { t->st = RUN; t->timeout = true; for (auto& c : cvs) for (auto i = c.second.w.begin(); i != c.second.w.end();) if (*i == t.get()) i = c.second.w.erase(i); else ++i; v.push_back(t.get()); break; }
    if (v.empty()) {
      if (me->st == DONE) { bool all = true; for (auto& t : th) if (t->st != DONE) all = false; if (all) return; }
      dead("all threads blocked: " + describe());
    }
  }
  int k = choose(v.size());
  switch_to(v[k]);
}
static void block(void* obj, const char* why) {
  me->st = BLOCKED; me->obj = obj; me->why = why;
  block_switch();
}
static void point() {
  if (!ex) return;
  if (++ex->steps > HORIZON) dead("step limit exceeded (livelock): " + describe());
  total_points++;
  if (budget_left <= 0 && pos >= ex->prefix.size()) return;
  std::vector<T*> v; runnable(v, me);
  if (v.empty()) return;
  int k = choose(v.size() + 1);
  if (k > 0) switch_to(v[k - 1]);
}
static void wake_obj(void* obj) { for (auto& t : th) if (t->st == BLOCKED && t->obj == obj) { t->st = RUN; t->obj = nullptr; } }

static int cur_tid() { return hb_on && me ? me->id : -1; }
static void mem_point() { if (me && cur == me) point(); }
static void fs_hook(fs::Op o, const char*) { if (fs_pts && o != fs::STAT && o != fs::MMAP) point(); }

void run_solo(std::function<void()> fn, const char* name) { int t = spawn(fn, name); solo = th[t].get(); join(t); solo = nullptr; }

void init() {
  th.clear();
  auto t = std::make_unique<T>(); t->id = 0; t->name = "main"; sem_init(&t->go, 0, 0);
  me = cur = t.get(); th.push_back(std::move(t));
  fs::sched_hook = fs_hook; race::tid = cur_tid; race::point = mem_point;
}
int self() { return me ? me->id : 0; }
static void* tramp(void* a) {
  T* t = (T*)a; me = t;
  while (sem_wait(&t->go) != 0) {}
  if (t->fn) t->fn(); else t->ret = t->cfn(t->carg);
  t->st = DONE;
  wake_obj(t);
  // hand over
  std::vector<T*> v; runnable(v, t);
  if (v.empty()) { block_switch(); return nullptr; }
  int k = choose(v.size());
  cur = v[k]; sem_post(&v[k]->go);
  return nullptr;
}
static T* add(const std::string& name) {
  // reuse: drop finished joined threads at the tail
  auto t = std::make_unique<T>(); t->id = (int)th.size(); t->name = name; sem_init(&t->go, 0, 0);
  T* r = t.get(); th.push_back(std::move(t)); if (me) HB(fork(r->id, me->id)); return r;
}
// threads of the operating system are used again: creating one for each operation is slow and fills
// the kernel's memory. At least KEEP of them take turns, so that locks which belong to a thread do not
// pass to the next one by accident
struct Os { pthread_t id; sem_t job, idle; T* t; };
static std::deque<Os*> os_free; static pid_t os_pid; static const size_t KEEP = 3;
static void* os_main(void* a) { Os* o = (Os*)a; for (;;) { while (sem_wait(&o->job) != 0) {} tramp(o->t); me = nullptr; sem_post(&o->idle); } }
static void start(T* t) {
  pid_t p = syscall(SYS_getpid); if (p != os_pid) { os_pid = p; os_free.clear(); }
  Os* o;
  if (os_free.size() < KEEP) {
    o = new Os; sem_init(&o->job, 0, 0); sem_init(&o->idle, 0, 0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024);
    if (__real_pthread_create(&o->id, &a, os_main, o) != 0) { fprintf(stderr, "harness: cannot create a thread\n"); _exit(98); }
    pthread_attr_destroy(&a);
  } else { o = os_free.front(); os_free.pop_front(); }
  t->os = o; t->real = o->id; t->has_real = true; o->t = t; sem_post(&o->job);
}
int spawn(std::function<void()> fn, const char* name) { T* t = add(name); t->fn = fn; start(t); return t->id; }
static void trim() { while (th.size() > 1 && th.back()->st == DONE && th.back()->joined) { sem_destroy(&th.back()->go); th.pop_back(); } }
static void join_t(T* t) {
  while (t->st != DONE) block(t, "join");
  HB(acquire_thread(me->id, t->id));
  if (t->has_real && !t->joined) { while (sem_wait(&t->os->idle) != 0) {} os_free.push_back(t->os); t->joined = true; }
  trim();
}
void join(int tid) { join_t(th[tid].get()); }
void run_others() {
  for (;;) {
    std::vector<T*> v; runnable(v, me); if (v.empty()) return;
    // sit out until nobody else can run: a yield that is only resumed when the others block
    me->st = TIMED; me->timeout = false; block_switch();
  }
}
void begin(Exec* e, int budget, bool f, bool u) { if (race::detect) race::begin(); hb_on = race::detect; race::active = race::detect || race::points; ex = e; budget_left = budget; fs_pts = f; un_pts = u; pos = 0; e->trace.clear(); e->steps = e->switches = 0; }
void end() { hb_on = false; race::active = false; ex = nullptr; fs_pts = un_pts = false; }
static int x_bound; static bool x_fs, x_un;
void start_exec(Exec& e) { begin(&e, x_bound, x_fs, x_un); }
uint64_t explore(int bound, bool fs_points, bool unlock_points, uint64_t shard, uint64_t shards, uint64_t limit, const std::function<void(Exec&)>& body) {
  x_bound = bound; x_fs = fs_points; x_un = unlock_points;
  struct Node { std::vector<Choice> p; int used; };
  std::vector<Node> st; st.push_back({{}, 0}); uint64_t n = 0; bool root = true;
  while (!st.empty() && n < limit) {
    Node nd = std::move(st.back()); st.pop_back();
    Exec e; e.prefix = nd.p; body(e); end(); n++;
    if (e.diverged) { fprintf(stderr, "harness: schedule not reproducible\n"); _exit(96); }
    if (nd.used < bound) for (size_t i = e.trace.size(); i-- > nd.p.size();) {
      if (root && i % shards != shard) continue;
      for (int k = e.trace[i].n - 1; k >= 1; k--) { Node c; c.p.assign(e.trace.begin(), e.trace.begin() + i + 1); c.p[i].pick = k; c.used = nd.used + 1; st.push_back(std::move(c)); }
    }
    root = false;
  }
  return n;
}
void reset_objects() { mxs.clear(); rws.clear(); cvs.clear(); }

static void mlock(void* m, const char* why) {
  point();
  for (;;) { auto& x = mxs[m]; if (!x.owner) { x.owner = me; HB(acquire(me->id, m)); return; } if (x.owner == me) dead(std::string("self deadlock in ") + why + ": " + describe()); block(m, why); }
}
static void munlock(void* m) {
  auto i = mxs.find(m);
  if (i != mxs.end()) i->second.owner = nullptr;
  HB(release(me->id, m)); wake_obj(m);
  if (un_pts) point();
}
} // namespace sched
using namespace sched;
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { mxs.erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { mxs.erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { mlock(m, "mutex_lock"); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { point(); auto& x = mxs[m]; if (x.owner) return EBUSY; x.owner = me; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { munlock(m); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t* m, int) { mxs.erase((void*)m); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t* m) { mxs.erase((void*)m); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { mlock((void*)m, "spin_lock"); return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { point(); auto& x = mxs[(void*)m]; if (x.owner) return EBUSY; x.owner = me; return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { munlock((void*)m); return 0; }

int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { rws.erase(l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* l) { rws.erase(l); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { point(); for (;;) { auto& x = rws[l]; if (!x.writer) { x.readers++; HB(acquire_r(me->id, l)); return 0; } if (x.writer == me) dead("self deadlock in rwlock_rdlock"); block(l, "rwlock_rdlock"); } }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { point(); for (;;) { auto& x = rws[l]; if (!x.writer && !x.readers) { x.writer = me; HB(acquire(me->id, l)); return 0; } if (x.writer == me) dead("self deadlock in rwlock_wrlock"); block(l, "rwlock_wrlock"); } }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { point(); auto& x = rws[l]; if (x.writer) return EBUSY; x.readers++; return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { point(); auto& x = rws[l]; if (x.writer || x.readers) return EBUSY; x.writer = me; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  auto& x = rws[l];
  if (x.writer) { HB(release(me->id, l)); x.writer = nullptr; } else if (x.readers > 0) { HB(release_r(me->id, l)); x.readers--; } else dead("rwlock unlocked more often than locked");
  wake_obj(l); if (un_pts) point(); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { cvs.erase(c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { cvs.erase(c); return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  point();
  T* t = me;
  auto i = mxs.find(m); if (i != mxs.end()) i->second.owner = nullptr;
  HB(release(t->id, m)); wake_obj(m);
  cvs[c].w.push_back(t);
  t->timeout = false;
  if (timed) { t->st = TIMED; t->why = "cond_timedwait"; t->obj = nullptr; block_switch(); }
  else { t->st = BLOCKED; t->obj = nullptr; t->why = "cond_wait"; block_switch(); }
  for (;;) { auto& x = mxs[m]; if (!x.owner) { x.owner = t; HB(acquire(t->id, m)); break; } block(m, "mutex_lock after cond_wait"); }
  return t->timeout ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cwait(c, m, true); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  point();
  auto i = cvs.find(c); if (i == cvs.end() || i->second.w.empty()) return 0;
  auto& w = i->second.w; int k = choose(w.size());
  T* t = w[k]; w.erase(w.begin() + k); t->st = RUN; return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  point();
  auto i = cvs.find(c); if (i == cvs.end()) return 0;
  for (auto t : i->second.w) t->st = RUN;
  i->second.w.clear(); return 0;
}
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t*, void* (*f)(void*), void* arg) {
  T* t = add("worker" + std::to_string(th.size())); t->cfn = f; t->carg = arg; start(t); *out = t->real; point(); return 0;
}
int __wrap_pthread_join(pthread_t id, void** ret) {
  for (auto& t : th) if (t->has_real && !t->joined && pthread_equal(t->real, id)) { T* p = t.get(); void* r = nullptr; while (p->st != DONE) block(p, "join"); r = p->ret; join_t(p); if (ret) *ret = r; return 0; }
  return ESRCH;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }
int __wrap_sched_yield(void) { point(); return 0; }
}

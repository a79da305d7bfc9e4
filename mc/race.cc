#include "race.h"
#include <string.h>
#include <stdlib.h>
#include <malloc.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
namespace race {
bool active = false, detect = false, points = false, have_callbacks = false; int (*tid)() = nullptr; void (*point)() = nullptr; uint64_t accesses = 0;
enum { NT = 16, NE = 1 << 17, NR = 6 };
struct VC { uint32_t c[NT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < NT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
static VC cl[NT]; struct Obj { VC w, r; }; static std::unordered_map<const void*, Obj> objs;
struct Acc { void* pc; uint32_t clk; uint8_t t, mask; };
struct Ent { uintptr_t key; uint32_t gen; uint8_t nr; Acc w; Acc r[NR]; };
static Ent* tab; static uint32_t gen = 1;
static std::unordered_set<void*> bad;
void begin() { gen++; objs.clear(); for (int i = 0; i < NT; i++) { cl[i] = VC(); cl[i].c[i] = 1; } accesses = 0; }
void fork(int c, int p) { if (c >= NT || p >= NT) return; cl[c] = cl[p]; cl[c].c[c] = std::max<uint32_t>(cl[c].c[c], 1) + 1; cl[p].c[p]++; }
void acquire(int t, const void* o) { if (!detect || t >= NT) return; auto i = objs.find(o); if (i == objs.end()) return; cl[t].join(i->second.w); cl[t].join(i->second.r); }
void acquire_r(int t, const void* o) { if (!detect || t >= NT) return; auto i = objs.find(o); if (i == objs.end()) return; cl[t].join(i->second.w); }
void release(int t, const void* o) { if (!detect || t >= NT) return; objs[o].w.join(cl[t]); cl[t].c[t]++; }
void release_r(int t, const void* o) { if (!detect || t >= NT) return; objs[o].r.join(cl[t]); cl[t].c[t]++; }
void acquire_thread(int t, int o) { if (!detect || t >= NT || o >= NT) return; cl[t].join(cl[o]); }
size_t racy() { return bad.size(); }
std::vector<void*> racy_list() { return std::vector<void*>(bad.begin(), bad.end()); }
void clear() { bad.clear(); }
static Ent* find(uintptr_t g, bool add) {
  if (!tab) tab = (Ent*)calloc(NE, sizeof(Ent));
  size_t i = (g * 0x9E3779B97F4A7C15ull) >> 47 & (NE - 1);
  for (int k = 0; k < 32; k++, i = (i + 1) & (NE - 1)) { Ent* e = &tab[i]; if (e->gen == gen && e->key == g) return e; if (e->gen != gen) { if (!add) return nullptr; e->gen = gen; e->key = g; e->nr = 0; e->w.pc = nullptr; return e; } }
  return nullptr;
}
static bool before(const Acc& a, int t) { return a.t == t || a.clk <= cl[t].c[a.t]; }
static void hit(uintptr_t g, uint8_t mask, bool wr, void* pc, int t) {
  Ent* e = find(g, true); if (!e) return;
  if (e->w.pc && (e->w.mask & mask) && !before(e->w, t)) { bad.insert(e->w.pc); bad.insert(pc); }
  if (wr) {
    for (int i = 0; i < e->nr; i++) if ((e->r[i].mask & mask) && !before(e->r[i], t)) { bad.insert(e->r[i].pc); bad.insert(pc); }
    e->w = {pc, cl[t].c[t], (uint8_t)t, mask}; e->nr = 0;
  } else {
    for (int i = 0; i < e->nr; i++) if (e->r[i].t == t) { e->r[i] = {pc, cl[t].c[t], (uint8_t)t, mask}; return; }
    if (e->nr < NR) e->r[e->nr++] = {pc, cl[t].c[t], (uint8_t)t, mask};
  }
}
static inline void access(const void* a, size_t n, bool wr, void* pc) {
  if (!active) return;
  if (points && !bad.empty() && bad.count(pc)) point();
  if (!detect) return;
  int t = tid(); if (t < 0 || t >= NT) return; accesses++;
  uintptr_t p = (uintptr_t)a, e = p + n;
  while (p < e) { uintptr_t g = p >> 3; uintptr_t ge = std::min<uintptr_t>(e, (g + 1) << 3); uint8_t m = 0; for (uintptr_t x = p; x < ge; x++) m |= 1 << (x & 7); hit(g, m, wr, pc, t); p = ge; }
}
void freed(const void* p, size_t n) { if (!active || !detect || !tab) return; if (n > 1 << 16) n = 1 << 16; for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n + 7) >> 3; g++) { Ent* e = find(g, false); if (e) { e->w.pc = nullptr; e->nr = 0; } } }
static inline void atomic_op(const void* a) { if (!active) return; point(); int t = tid(); if (t >= 0) { acquire(t, a); release(t, a); } }
}
using namespace race;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() { have_callbacks = true; }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } \
 void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* a, int) { atomic_op((const void*)a); return *a; } \
 void __tsan_atomic##b##_store(volatile T* a, T v, int) { atomic_op((const void*)a); *a = v; } \
 T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { atomic_op((const void*)a); T o = *a; *a = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { atomic_op((const void*)a); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { atomic_op((const void*)a); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { atomic_op((const void*)a); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { atomic_op((const void*)a); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { atomic_op((const void*)a); T o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { atomic_op((const void*)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { atomic_op((const void*)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { atomic_op((const void*)a); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
// allocations of the code under test which have not been returned
#include <unordered_map>
#include <string>
#include <dlfcn.h>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t); }
namespace heap {
struct Blk { size_t n; uint64_t seq; void* at[5]; };
template <class T> struct Raw { using value_type = T; Raw() {} template <class U> Raw(const Raw<U>&) {} T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { __real_free(p); } bool operator==(const Raw&) const { return true; } bool operator!=(const Raw&) const { return false; } };
static std::unordered_map<void*, Blk, std::hash<void*>, std::equal_to<void*>, Raw<std::pair<void* const, Blk>>>* blks;
static bool on; static uint64_t seq;
void track(bool v) { if (!blks) blks = new (__real_malloc(sizeof *blks)) std::remove_pointer<decltype(blks)>::type; blks->clear(); seq = 0; on = v; }
static void put(void* p, size_t n, void* fp0) {
  if (!on || !p) return; Blk b{n, seq++, {}}; void** fp = (void**)fp0; for (int i = 0; i < 5; i++) { if (!fp || (uintptr_t)fp & 7) break; b.at[i] = fp[1]; void** up = (void**)fp[0]; if (up <= fp || (char*)up - (char*)fp > 100000) break; fp = up; }
  (*blks)[p] = b;
}
static void del(void* p) { if (on && p) blks->erase(p); }
size_t live() { return on ? blks->size() : 0; }
std::string list() {
  std::string r; int k = 0; for (auto& b : *blks) { if (k++ == 6) { r += " ..."; break; } char t[64]; snprintf(t, sizeof t, "%zu bytes (allocation %llu) by", b.second.n, (unsigned long long)b.second.seq); r += t;
    for (void* a : b.second.at) { Dl_info d; if (a && dladdr(a, &d) && d.dli_sname) r += std::string(" ") + d.dli_sname; else { snprintf(t, sizeof t, " %p", a); r += t; } } r += "; "; }
  return r;
}
}
extern "C" {
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) freed(p, n); heap::put(p, n, __builtin_frame_address(0)); return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if (p) freed(p, n * m); heap::put(p, n * m, __builtin_frame_address(0)); return p; }
void* __wrap_realloc(void* o, size_t n) { size_t u = o ? malloc_usable_size(o) : 0; void* p = __real_realloc(o, n); if (p && p != o) freed(p, n); else if (p && n > u) freed((char*)p + u, n - u); if (p) { heap::del(o); heap::put(p, n, __builtin_frame_address(0)); } return p; }
void __wrap_free(void* p) { heap::del(p); __real_free(p); }
}
#include <new>
void* operator new(size_t n) { if (!n) n = 1; void* p = __real_malloc(n); if (!p) abort(); freed(p, n); return p; }
void operator delete(void* p) noexcept { __real_free(p); }
void operator delete(void* p, size_t) noexcept { __real_free(p); }

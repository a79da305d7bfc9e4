// helpers for demonstrations: every file stays below the scratch directory given as argv[1]
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <inttypes.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <dlfcn.h>
#include <monotone.h>
#define BAD(...) do { fprintf(stderr, "line %d: ", __LINE__); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } while (0)
static char dbdir[4096];
static monotone_t* db;
static void fmt_exec(int must, const char* f, va_list a) {
  char b[4096]; vsnprintf(b, sizeof b, f, a); char* r = NULL;
  int rc = monotone_execute(db, b, &r); if (r) free(r);
  if (rc < 0 && must > 0) BAD("%s: %s", b, monotone_error(db));
  if (rc >= 0 && must < 0) BAD("%s: expected an error", b);
}
static void X(const char* f, ...) { va_list a; va_start(a, f); fmt_exec(1, f, a); va_end(a); }
static void XF(const char* f, ...) { va_list a; va_start(a, f); fmt_exec(-1, f, a); va_end(a); }   // must fail
static void XM(const char* f, ...) { va_list a; va_start(a, f); fmt_exec(0, f, a); va_end(a); }    // may fail
static const char* presets[32]; static int npresets;
static int try_open(void) {
  db = monotone_init(); if (!db) BAD("init");
  for (int i = 0; i < npresets; i++) X("%s", presets[i]);
  return monotone_open(db, dbdir);
}
static void PRE(const char* s) { presets[npresets++] = s; }
static void OPEN(void) { if (npresets == 0) { PRE("set workers to 0"); PRE("set interval to 10"); } if (try_open() < 0) BAD("open: %s", monotone_error(db)); }
static void CLOSE(void) { monotone_free(db); db = NULL; }
static int W(int flags, uint64_t id, const char* key, const char* val) {
  monotone_event_t e; memset(&e, 0, sizeof e); e.flags = flags; e.id = id; e.key = (void*)key; e.key_size = key ? strlen(key) : 0; e.value = (void*)val; e.value_size = val ? strlen(val) : 0;
  return monotone_write(db, &e, 1);
}
static void P(uint64_t id, const char* val) { if (W(0, id, NULL, val) < 0) BAD("write: %s", monotone_error(db)); }
static void PK(uint64_t id, const char* key, const char* val) { if (W(0, id, key, val) < 0) BAD("write: %s", monotone_error(db)); }
static void DEL(uint64_t id) { if (W(MONOTONE_DELETE, id, NULL, NULL) < 0) BAD("delete: %s", monotone_error(db)); }
// contents as "id:key=value " text; NULL on error
static char* SCAN_AT(monotone_event_t* from) {
  static char* out; static size_t cap; if (!out) out = malloc(cap = 1 << 22); size_t n = 0; out[0] = 0;
  monotone_cursor_t* c = monotone_cursor(db, NULL, from); if (!c) return NULL;
  for (;;) {
    monotone_event_t e; int rc = monotone_read(c, &e); if (rc < 0) { monotone_free(c); return NULL; } if (rc == 0) break;
    if (n + e.key_size + e.value_size + 64 < cap) n += sprintf(out + n, "%" PRIu64 ":%.*s=%.*s ", e.id, (int)e.key_size, (char*)e.key, (int)e.value_size, (char*)e.value);
    rc = monotone_next(c); if (rc < 0) { monotone_free(c); return NULL; } if (rc == 0) break;
  }
  monotone_free(c); return out;
}
static char* SCAN(void) { return SCAN_AT(NULL); }
static void WANT(const char* s) { char* g = SCAN(); if (!g) BAD("scan: %s", monotone_error(db)); if (strcmp(g, s)) BAD("contents [%s], expected [%s]", g, s); }
static void WANT_AT(uint64_t id, const char* s) { monotone_event_t e; memset(&e, 0, sizeof e); e.id = id; char* g = SCAN_AT(&e); if (!g) BAD("scan: %s", monotone_error(db)); if (strcmp(g, s)) BAD("from %" PRIu64 " [%s], expected [%s]", id, g, s); }
static void INIT(int c, char** v) { if (c < 2) exit(2); struct rlimit rl = { 4ul << 30, 4ul << 30 }; setrlimit(RLIMIT_AS, &rl); snprintf(dbdir, sizeof dbdir, "%s/db", v[1]); }
// run f in a child process which then dies without closing the database
static void DIE_IN_CHILD(void (*f)(void)) { fflush(NULL); pid_t p = fork(); if (p == 0) { f(); _exit(0); } int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 1) exit(1); }

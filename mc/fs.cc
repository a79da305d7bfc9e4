#include "fs.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <set>

#undef fstat64
namespace fs {
const char* op_name[] = {"open","creat","close","read","write","sync","truncate","seek","rename","unlink",
                         "mkdir","rmdir","opendir","readdir","stat","flock","mmap","get","request"};
const char* ROOT = "/mcfs";
void (*sched_hook)(Op, const char*) = nullptr;
uint64_t now_us = 1700000000ull * 1000000ull;
bool clock_frozen = false;
bool reverse_readdir = false;
uint64_t urandom_opens = 0;
bool mmap_track = true;
uint64_t mmap_live = 0;

static uint64_t next_ino = 1;
static uint64_t next_ofd = 1;
struct Inode { bool dir = false; Blob cur, dur; uint64_t ino; int excl = 0; int shared = 0; };
typedef std::shared_ptr<Inode> InodeP;
struct Ofd { InodeP node; uint64_t off = 0; int flags = 0; std::string path; int lock = 0; bool urandom = false; uint64_t rnd = 0; uint64_t id = 0; };
static std::map<std::string, InodeP> tree;
static const int FDBASE = 1 << 20;
static std::map<int, Ofd> fds;
static std::map<uint64_t, int> maps_dummy;
struct Dir { std::vector<std::string> names; size_t pos = 0; struct dirent ent; };
static std::set<Dir*> dirs;
static std::map<void*, size_t> maps;

static Blob empty_blob() { static Blob b = std::make_shared<const std::string>(); return b; }

static uint64_t fnv(uint64_t h, const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  // 8 bytes at a time, enough mixing for state identification
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) { h = (h ^ *c++) * 0x100000001b3ull; }
  h ^= h >> 32; return h;
}
uint64_t Image::hash(bool power) const {
  uint64_t h = 1469598103934665603ull;
  for (auto& e : ents) {
    h = fnv(h, e.first.data(), e.first.size());
    h = fnv(h, &e.second.dir, 1);
    if (!e.second.dir) {
      // the text log never influences behaviour
      if (e.first.size() > 4 && e.first.compare(e.first.size() - 4, 4, "/log") == 0) continue;
      h = fnv(h, e.second.cur->data(), e.second.cur->size());
      if (power) h = fnv(h ^ 77, e.second.dur->data(), e.second.dur->size());
    }
  }
  return h;
}
std::string Image::list() const {
  std::string s;
  for (auto& e : ents) {
    s += e.first;
    if (!e.second.dir) s += " (" + std::to_string(e.second.cur->size()) + "/" + std::to_string(e.second.dur->size()) + ")";
    s += "\n";
  }
  return s;
}

static uint64_t opn = 0;
static Recorder rec; static bool rec_on = false, rec_torn = false;
static Fault flt; static bool flt_on = false, flt_hit = false; static uint64_t flt_n = 0; static std::string flt_where;
static uint32_t flt_mask = ~0u;
static bool flt_short_pending = false;

void reset() {
  tree.clear(); drop_handles();
  auto n = std::make_shared<Inode>(); n->dir = true; n->ino = next_ino++;
  tree[ROOT] = n;
}
Image snapshot() {
  Image im;
  for (auto& t : tree) { Ent e; e.dir = t.second->dir; e.cur = t.second->cur; e.dur = t.second->dur; im.ents.emplace_hint(im.ents.end(), t.first, e); }
  return im;
}
void restore(const Image& im) {
  drop_handles(); tree.clear();
  for (auto& e : im.ents) {
    auto n = std::make_shared<Inode>(); n->dir = e.second.dir; n->ino = next_ino++;
    n->cur = e.second.cur; n->dur = e.second.dur;
    tree.emplace_hint(tree.end(), e.first, n);
  }
}
void drop_handles() {
  fds.clear();
  for (auto d : dirs) delete d;
  dirs.clear();
  for (auto& t : tree) { t.second->excl = t.second->shared = 0; }
}
int open_handles() { return (int)fds.size() + (int)dirs.size(); }
std::string handle_list() { std::string s; for (auto& f : fds) s += f.second.path + " "; if (dirs.size()) s += "+" + std::to_string(dirs.size()) + " dirs"; return s; }
std::vector<std::pair<std::string, std::string>> open_files() {
  std::map<Inode*, std::string> where; for (auto& t : tree) where[t.second.get()] = t.first;
  std::vector<std::pair<std::string, std::string>> v; for (auto& f : fds) { auto i = where.find(f.second.node.get()); v.push_back({f.second.path, i == where.end() ? "" : i->second}); }
  return v;
}
std::map<std::string, size_t> listing() { std::map<std::string, size_t> r; for (auto& t : tree) r[t.first] = t.second->dir ? 0 : t.second->cur->size(); return r; }
bool exists(const std::string& p) { return tree.count(p) != 0; }
std::string read_file(const std::string& p) { auto i = tree.find(p); return i == tree.end() || i->second->dir ? std::string() : *i->second->cur; }
void write_file(const std::string& p, const std::string& d) {
  auto& n = tree[p]; if (!n) { n = std::make_shared<Inode>(); n->ino = next_ino++; }
  n->cur = n->dur = std::make_shared<const std::string>(d);
}
void remove_file(const std::string& p) { tree.erase(p); }
uint64_t op_count() { return opn; }
void set_recorder(Recorder r, bool torn) { rec = r; rec_on = true; rec_torn = torn; }
void clear_recorder() { rec_on = false; rec = nullptr; }
void arm(const Fault& f) { flt = f; flt_on = true; flt_hit = false; flt_n = 0; flt_where.clear(); flt_short_pending = false; }
void disarm() { flt_on = false; flt_short_pending = false; }
bool fault_fired() { return flt_hit; }
std::string fault_where() { return flt_where; }
uint64_t faultable_calls() { return flt_n; }
void fault_mask(uint32_t m) { flt_mask = m; }

std::vector<std::string> unflushed(const Image& im) {
  std::vector<std::string> v;
  for (auto& e : im.ents) if (!e.second.dir && e.second.cur != e.second.dur && *e.second.cur != *e.second.dur) v.push_back(e.first);
  return v;
}
Image lose(const Image& im, int variant) {
  Image r = im;
  for (auto& e : r.ents) {
    auto& x = e.second;
    if (x.dir || x.cur == x.dur) continue;
    if (variant == L_NONE) { }
    else if (variant == L_ALL) x.cur = x.dur;
    else {
      size_t a = x.dur->size(), b = x.cur->size();
      if (b > a && x.cur->compare(0, a, *x.dur) == 0) {
        size_t n = variant == L_HALF ? a + (b - a) / 2 : b - 1;
        x.cur = std::make_shared<const std::string>(x.cur->substr(0, n));
      } else x.cur = x.dur;
    }
    x.dur = x.cur;
  }
  return r;
}
Image lose_mask(const Image& im, uint32_t keep) {
  Image r = im; int i = 0;
  for (auto& e : r.ents) {
    auto& x = e.second;
    if (x.dir || x.cur == x.dur || *x.cur == *x.dur) continue;
    if (!(keep >> i & 1)) x.cur = x.dur;
    i++;
  }
  for (auto& e : r.ents) e.second.dur = e.second.cur;
  return r;
}

static bool flt_net;
static bool is_mutating(Op o, bool trunc_open) {
  switch (o) { case CREAT: case WRITE: case TRUNC: case RENAME: case UNLINK: case MKDIR: case RMDIR: case SYNC: case NETPUT: return true; default: return trunc_open; }
}
// returns errno to fail with, or 0; *shrt is set when a write has to be shortened
static int enter_op(Op o, const std::string& path, const std::string& what, bool* shrt = nullptr, bool trunc_open = false) {
  opn++;
  if (sched_hook) sched_hook(o, path.c_str());
  if (flt_on && (flt_mask >> o & 1)) {
    uint64_t k = flt_n++;
    bool hit = false;
    if (flt.kind == Fault::ONCE) hit = k == flt.at;
    else if (flt.kind == Fault::STICKY) { bool net = o == NETGET || o == NETPUT; if (k == flt.at) flt_net = net; hit = k == flt.at || (flt_hit && k > flt.at && net == flt_net && (net || is_mutating(o, trunc_open))); }   // the disk and the server fail separately
    else if (flt.kind == Fault::PARTIAL) { if (k == flt.at && o == WRITE && shrt) { *shrt = true; flt_hit = true; flt_where = std::string("partial ") + op_name[o] + " " + path; } else if (k == flt.at) { flt_hit = true; flt_where = "not a write"; } }
    else if (flt.kind == Fault::SHORT) {
      if (k == flt.at && (o == NETGET || o == NETPUT)) { *shrt = true; flt_hit = true; flt_where = std::string("answer cut off: ") + path; }
      else if (k == flt.at && (o != WRITE || !shrt)) { flt_hit = true; flt_where = "not a write"; }
      if (flt_short_pending && o == WRITE) { hit = true; flt_short_pending = false; }
      else if (k == flt.at && o == WRITE && shrt) { *shrt = true; flt_short_pending = true; flt_hit = true; flt_where = std::string("short ") + op_name[o] + " " + path; }
    }
    if (hit) {
      if (flt_where.empty()) flt_where = std::string(op_name[o]) + " " + path;
      flt_hit = true; return flt.err;
    }
  }
  if (rec_on && is_mutating(o, trunc_open)) { Point p{opn, o, path, what}; Image im = snapshot(); rec(p, im); }
  return 0;
}

int net_call(bool change, const std::string& what, int* cut) {
  bool shrt = false; int e = enter_op(change ? NETPUT : NETGET, what, "", &shrt); *cut = shrt; return e;
}
void server_put(const std::string& path, const std::string* data) {
  auto n = std::make_shared<Inode>(); n->ino = next_ino++; n->dir = !data; if (data) n->cur = n->dur = std::make_shared<const std::string>(*data); tree[path] = n;
}
void server_remove(const std::string& path) { tree.erase(path); }

static bool ours(const char* p) { size_t n = strlen(ROOT); return p && strncmp(p, ROOT, n) == 0 && (p[n] == 0 || p[n] == '/'); }
static std::string norm(const char* p) {
  std::string s; for (const char* c = p; *c; c++) { if (*c == '/' && !s.empty() && s.back() == '/') continue; s += *c; }
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}
static std::string parent(const std::string& s) { size_t i = s.rfind('/'); return i == 0 ? "/" : s.substr(0, i); }
static bool parent_ok(const std::string& s) { auto i = tree.find(parent(s)); return i != tree.end() && i->second->dir; }

static int alloc_fd() { int f = FDBASE; for (auto& x : fds) { if (x.first != f) break; f++; } return f; }

static int do_open(const char* path, int flags, int mode) {
  if (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0) {
    int fd = alloc_fd(); Ofd o; o.urandom = true; o.rnd = 0x12345678 + 7919 * (++urandom_opens); o.path = path; fds[fd] = o; return fd;
  }
  std::string p = norm(path);
  auto it = tree.find(p);
  bool creating = it == tree.end() && (flags & O_CREAT);
  bool trunc = it != tree.end() && (flags & O_TRUNC) && it->second->cur && it->second->cur->size();
  int e = enter_op(creating ? CREAT : OPEN, p, "", nullptr, trunc);
  if (e) { errno = e; return -1; }
  it = tree.find(p);
  if (it == tree.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    auto n = std::make_shared<Inode>(); n->cur = n->dur = empty_blob(); n->ino = next_ino++;
    it = tree.emplace(p, n).first;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (it->second->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if (!it->second->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
    if (flags & O_TRUNC) it->second->cur = empty_blob();
  }
  int fd = alloc_fd(); Ofd o; o.node = it->second; o.flags = flags; o.path = p; o.id = next_ofd++; fds[fd] = o;
  return fd;
}
static Ofd* get(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : &i->second; }

static ssize_t do_read(Ofd* o, void* buf, size_t n, uint64_t off, bool pos) {
  if (o->urandom) {
    unsigned char* c = (unsigned char*)buf;
    for (size_t i = 0; i < n; i++) { o->rnd = o->rnd * 6364136223846793005ull + 1442695040888963407ull; c[i] = o->rnd >> 56; }
    return n;
  }
  int e = enter_op(READ, o->path, ""); if (e) { errno = e; return -1; }
  if (o->node->dir) { errno = EISDIR; return -1; }
  auto& d = *o->node->cur;
  if (off >= d.size()) return 0;
  size_t k = std::min(n, d.size() - (size_t)off);
  memcpy(buf, d.data() + off, k);
  if (!pos) o->off += k;
  return k;
}
static void apply_write(Inode* nd, uint64_t off, const char* p, size_t n) {
  if (nd->cur.use_count() == 1) {
    auto& s = const_cast<std::string&>(*nd->cur);
    if (s.size() < off + n) s.resize(off + n);
    memcpy(&s[off], p, n); return;
  }
  auto s = std::make_shared<std::string>();
  auto& old = *nd->cur;
  s->reserve(std::max(old.size(), (size_t)off + n));
  *s = old;
  if (s->size() < off + n) s->resize(off + n);
  memcpy(&(*s)[off], p, n);
  nd->cur = s;
}
static ssize_t do_write(Ofd* o, const char* p, size_t n, uint64_t off, bool pos) {
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  bool shrt = false;
  int e = enter_op(WRITE, o->path, std::to_string(n) + "@" + std::to_string(off), &shrt);
  if (e) { errno = e; return -1; }
  if (!pos && (o->flags & O_APPEND)) off = o->off = o->node->cur->size();
  if (n == 0) return 0;
  if (rec_on && rec_torn && n > 1) {
    static const size_t cuts[] = {1, 4, 8, 16, 20, 24, 28, 32, 40};
    std::set<size_t> cs; for (size_t c : cuts) if (c < n) cs.insert(c);
    cs.insert(n / 2); cs.insert(n - 1);
    Blob save = o->node->cur;
    for (size_t c : cs) {
      apply_write(o->node.get(), off, p, c);
      Point pt{opn, WRITE, o->path, "torn " + std::to_string(c) + " of " + std::to_string(n) + "@" + std::to_string(off)};
      rec(pt, snapshot());
      o->node->cur = save;
    }
  }
  if (shrt && n > 1) n = n / 2;
  apply_write(o->node.get(), off, p, n);
  if (!pos) o->off += n;
  return n;
}
static void fill_stat(struct stat* st, Inode* n) {
  memset(st, 0, sizeof(*st));
  st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = n->dir ? 4096 : n->cur->size(); st->st_ino = n->ino; st->st_nlink = 1; st->st_blksize = 4096;
}
static int do_stat(const char* path, struct stat* st) {
  std::string p = norm(path);
  int e = enter_op(STAT, p, ""); if (e) { errno = e; return -1; }
  auto i = tree.find(p); if (i == tree.end()) { errno = ENOENT; return -1; }
  fill_stat(st, i->second.get()); return 0;
}
static bool has_children(const std::string& p) { auto i = tree.upper_bound(p + "/"); return i != tree.end() && i->first.compare(0, p.size() + 1, p + "/") == 0; }
} // namespace fs

using namespace fs;
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t); ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_preadv(int, const struct iovec*, int, off_t);
int __real_fdatasync(int); int __real_fsync(int); int __real_sync_file_range(int, off_t, off_t, unsigned);
int __real_ftruncate(int, off_t); int __real_truncate(const char*, off_t); off_t __real_lseek(int, off_t, int);
int __real_rename(const char*, const char*); int __real_unlink(const char*); int __real_remove(const char*);
int __real_mkdir(const char*, mode_t); int __real_rmdir(const char*);
DIR* __real_opendir(const char*); struct dirent* __real_readdir(DIR*); int __real_closedir(DIR*);
int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*); int __real_fstat(int, struct stat*);
int __real_access(const char*, int); int __real_flock(int, int); int __real_fcntl(int, int, ...);
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); void* __real_mremap(void*, size_t, size_t, int, ...);
int __real_fallocate(int, int, off_t, off_t); int __real_posix_fallocate(int, off_t, off_t);

int __wrap_open(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  if (ours(p) || !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) return do_open(p, fl, mode);
  return __real_open(p, fl, mode);
}
int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return __wrap_open(p, fl, mode); }
int __wrap_openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); (void)d; return __wrap_open(p, fl, mode); }
int __wrap_creat(const char* p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_close(int fd) {
  if (fd < FDBASE) return __real_close(fd);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (!o->urandom) {
    opn++; if (sched_hook) sched_hook(CLOSE, o->path.c_str());
    o = get(fd); if (!o) { errno = EBADF; return -1; }
    if (o->lock == 2) o->node->excl--; else if (o->lock == 1) o->node->shared--;
  }
  fds.erase(fd); return 0;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { if (fd < FDBASE) return __real_read(fd, b, n); auto o = get(fd); if (!o) { errno = EBADF; return -1; } return do_read(o, b, n, o->off, false); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t off) { if (fd < FDBASE) return __real_pread(fd, b, n, off); auto o = get(fd); if (!o) { errno = EBADF; return -1; } return do_read(o, b, n, off, true); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t off) { return __wrap_pread(fd, b, n, off); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (fd < FDBASE) return __real_write(fd, b, n); auto o = get(fd); if (!o) { errno = EBADF; return -1; } return do_write(o, (const char*)b, n, o->off, false); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t off) { if (fd < FDBASE) return __real_pwrite(fd, b, n, off); auto o = get(fd); if (!o) { errno = EBADF; return -1; } return do_write(o, (const char*)b, n, off, true); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t off) { return __wrap_pwrite(fd, b, n, off); }
static bool gather(const struct iovec* v, int n, std::string* s) { if (n < 0 || n > 1024) return false; for (int i = 0; i < n; i++) s->append((const char*)v[i].iov_base, v[i].iov_len); return true; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) {
  if (fd < FDBASE) return __real_writev(fd, v, n);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  std::string s; if (!gather(v, n, &s)) { errno = EINVAL; return -1; }
  return do_write(o, s.data(), s.size(), o->off, false);
}
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t off) {
  if (fd < FDBASE) return __real_pwritev(fd, v, n, off);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  std::string s; if (!gather(v, n, &s)) { errno = EINVAL; return -1; }
  return do_write(o, s.data(), s.size(), off, true);
}
static ssize_t scatter(Ofd* o, const struct iovec* v, int n, uint64_t off, bool pos) {
  size_t tot = 0; for (int i = 0; i < n; i++) tot += v[i].iov_len;
  std::string s(tot, 0); ssize_t r = do_read(o, &s[0], tot, off, pos); if (r < 0) return r;
  size_t k = 0; for (int i = 0; i < n && k < (size_t)r; i++) { size_t m = std::min(v[i].iov_len, (size_t)r - k); memcpy(v[i].iov_base, &s[k], m); k += m; }
  return r;
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { if (fd < FDBASE) return __real_readv(fd, v, n); auto o = get(fd); if (!o) { errno = EBADF; return -1; } return scatter(o, v, n, o->off, false); }
ssize_t __wrap_preadv(int fd, const struct iovec* v, int n, off_t off) { if (fd < FDBASE) return __real_preadv(fd, v, n, off); auto o = get(fd); if (!o) { errno = EBADF; return -1; } return scatter(o, v, n, off, true); }
static int do_sync(int fd) {
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  int e = enter_op(SYNC, o->path, ""); if (e) { errno = e; return -1; }
  if (o->node && !o->node->dir) o->node->dur = o->node->cur;
  return 0;
}
int __wrap_fdatasync(int fd) { if (fd < FDBASE) return __real_fdatasync(fd); return do_sync(fd); }
int __wrap_fsync(int fd) { if (fd < FDBASE) return __real_fsync(fd); return do_sync(fd); }
int __wrap_sync_file_range(int fd, off_t a, off_t b, unsigned f) { if (fd < FDBASE) return __real_sync_file_range(fd, a, b, f); return 0; }
int __wrap_ftruncate(int fd, off_t n) {
  if (fd < FDBASE) return __real_ftruncate(fd, n);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  int e = enter_op(TRUNC, o->path, std::to_string(n)); if (e) { errno = e; return -1; }
  auto s = std::make_shared<std::string>(*o->node->cur); s->resize(n); o->node->cur = s; return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char* p, off_t n) {
  if (!ours(p)) return __real_truncate(p, n);
  std::string q = norm(p); int e = enter_op(TRUNC, q, std::to_string(n)); if (e) { errno = e; return -1; }
  auto i = tree.find(q); if (i == tree.end()) { errno = ENOENT; return -1; }
  auto s = std::make_shared<std::string>(*i->second->cur); s->resize(n); i->second->cur = s; return 0;
}
int __wrap_fallocate(int fd, int m, off_t a, off_t b) { if (fd < FDBASE) return __real_fallocate(fd, m, a, b); errno = EOPNOTSUPP; return -1; }
int __wrap_posix_fallocate(int fd, off_t a, off_t b) { if (fd < FDBASE) return __real_posix_fallocate(fd, a, b); return EOPNOTSUPP; }
off_t __wrap_lseek(int fd, off_t off, int wh) {
  if (fd < FDBASE) return __real_lseek(fd, off, wh);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  opn++;
  uint64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : o->node->cur->size();
  if ((int64_t)(base + off) < 0) { errno = EINVAL; return -1; }
  o->off = base + off; return o->off;
}
off_t __wrap_lseek64(int fd, off_t off, int wh) { return __wrap_lseek(fd, off, wh); }
int __wrap_rename(const char* a, const char* b) {
  if (!ours(a)) return __real_rename(a, b);
  std::string p = norm(a), q = norm(b);
  int e = enter_op(RENAME, p, q); if (e) { errno = e; return -1; }
  auto i = tree.find(p); if (i == tree.end() || !parent_ok(q)) { errno = ENOENT; return -1; }
  if (p == q) return 0;
  auto j = tree.find(q);
  if (j != tree.end()) {
    if (j->second->dir && !i->second->dir) { errno = EISDIR; return -1; }
    if (!j->second->dir && i->second->dir) { errno = ENOTDIR; return -1; }
    if (j->second->dir && has_children(q)) { errno = ENOTEMPTY; return -1; }
  }
  auto n = i->second; tree.erase(i); tree[q] = n;
  for (auto& f : fds) if (f.second.node == n) f.second.path = q;
  if (n->dir) {
    std::vector<std::pair<std::string, InodeP>> mv;
    for (auto k = tree.lower_bound(p + "/"); k != tree.end() && k->first.compare(0, p.size() + 1, p + "/") == 0;) { mv.push_back(*k); k = tree.erase(k); }
    for (auto& m : mv) tree[q + m.first.substr(p.size())] = m.second;
  }
  return 0;
}
int __wrap_renameat(int, const char* a, int, const char* b) { return __wrap_rename(a, b); }
int __wrap_renameat2(int, const char* a, int, const char* b, unsigned fl) { if (fl) { errno = EINVAL; return -1; } return __wrap_rename(a, b); }
int __wrap_unlink(const char* p) {
  if (!ours(p)) return __real_unlink(p);
  std::string q = norm(p); int e = enter_op(UNLINK, q, ""); if (e) { errno = e; return -1; }
  auto i = tree.find(q); if (i == tree.end()) { errno = ENOENT; return -1; }
  if (i->second->dir) { errno = EISDIR; return -1; }
  tree.erase(i); return 0;
}
int __wrap_rmdir(const char* p) {
  if (!ours(p)) return __real_rmdir(p);
  std::string q = norm(p); int e = enter_op(RMDIR, q, ""); if (e) { errno = e; return -1; }
  auto i = tree.find(q); if (i == tree.end()) { errno = ENOENT; return -1; }
  if (!i->second->dir) { errno = ENOTDIR; return -1; }
  if (has_children(q)) { errno = ENOTEMPTY; return -1; }
  tree.erase(i); return 0;
}
int __wrap_unlinkat(int, const char* p, int fl) { return fl & AT_REMOVEDIR ? __wrap_rmdir(p) : __wrap_unlink(p); }
int __wrap_remove(const char* p) {
  if (!ours(p)) return __real_remove(p);
  auto i = tree.find(norm(p)); if (i != tree.end() && i->second->dir) return __wrap_rmdir(p); return __wrap_unlink(p);
}
int __wrap_link(const char* a, const char* b) {
  std::string p = norm(a), q = norm(b); int e = enter_op(CREAT, q, "link"); if (e) { errno = e; return -1; }
  auto i = tree.find(p); if (i == tree.end()) { errno = ENOENT; return -1; }
  if (tree.count(q)) { errno = EEXIST; return -1; }
  tree[q] = i->second; return 0;
}
int __wrap_mkdir(const char* p, mode_t m) {
  if (!ours(p)) return __real_mkdir(p, m);
  std::string q = norm(p); int e = enter_op(MKDIR, q, ""); if (e) { errno = e; return -1; }
  if (tree.count(q)) { errno = EEXIST; return -1; }
  if (!parent_ok(q)) { errno = ENOENT; return -1; }
  auto n = std::make_shared<Inode>(); n->dir = true; n->ino = next_ino++; tree[q] = n; return 0;
}
DIR* __wrap_opendir(const char* p) {
  if (!ours(p)) return __real_opendir(p);
  std::string q = norm(p); int e = enter_op(OPENDIR, q, ""); if (e) { errno = e; return nullptr; }
  auto i = tree.find(q); if (i == tree.end()) { errno = ENOENT; return nullptr; }
  if (!i->second->dir) { errno = ENOTDIR; return nullptr; }
  auto d = new Dir; d->names = {".", ".."};
  std::vector<std::string> v;
  std::string pre = q + "/";
  for (auto k = tree.lower_bound(pre); k != tree.end() && k->first.compare(0, pre.size(), pre) == 0; ++k)
    if (k->first.find('/', pre.size()) == std::string::npos) v.push_back(k->first.substr(pre.size()));
  if (reverse_readdir) d->names.insert(d->names.end(), v.rbegin(), v.rend()); else d->names.insert(d->names.end(), v.begin(), v.end());
  dirs.insert(d); return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dp) {
  auto d = (Dir*)dp; if (!dirs.count(d)) return __real_readdir(dp);
  opn++;
  if (d->pos >= d->names.size()) return nullptr;
  auto& n = d->names[d->pos++]; memset(&d->ent, 0, sizeof(d->ent));
  snprintf(d->ent.d_name, sizeof(d->ent.d_name), "%s", n.c_str()); d->ent.d_type = DT_UNKNOWN; d->ent.d_ino = 1;
  return &d->ent;
}
struct dirent* __wrap_readdir64(DIR* dp) { return __wrap_readdir(dp); }
int __wrap_closedir(DIR* dp) { auto d = (Dir*)dp; if (!dirs.count(d)) return __real_closedir(dp); dirs.erase(d); delete d; return 0; }
int __wrap_stat(const char* p, struct stat* st) { if (!ours(p)) return __real_stat(p, st); return do_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { if (!ours(p)) return __real_lstat(p, st); return do_stat(p, st); }
int __wrap_stat64(const char* p, struct stat* st) { return __wrap_stat(p, st); }
int __wrap_lstat64(const char* p, struct stat* st) { return __wrap_lstat(p, st); }
int __wrap_fstat(int fd, struct stat* st) {
  if (fd < FDBASE) return __real_fstat(fd, st);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  int e = enter_op(STAT, o->path, ""); if (e) { errno = e; return -1; }
  fill_stat(st, o->node.get()); return 0;
}
int __wrap_fstat64(int fd, struct stat* st) { return __wrap_fstat(fd, st); }
int __wrap_fstatat(int, const char* p, struct stat* st, int) { return __wrap_stat(p, st); }
int __wrap_access(const char* p, int m) { if (!ours(p)) return __real_access(p, m); struct stat st; return do_stat(p, &st); }
int __wrap_flock(int fd, int op) {
  if (fd < FDBASE) return __real_flock(fd, op);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  int e = enter_op(FLOCK, o->path, ""); if (e) { errno = e; return -1; }
  int k = op & ~LOCK_NB;
  auto n = o->node.get();
  int oe = n->excl - (o->lock == 2), os = n->shared - (o->lock == 1);
  if (k == LOCK_EX && (oe || os)) { errno = EWOULDBLOCK; return -1; }
  if (k == LOCK_SH && oe) { errno = EWOULDBLOCK; return -1; }
  n->excl = oe; n->shared = os; o->lock = 0;
  if (k == LOCK_EX) { n->excl++; o->lock = 2; } else if (k == LOCK_SH) { n->shared++; o->lock = 1; }
  return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); void* x = va_arg(a, void*); va_end(a);
  if (fd < FDBASE) return __real_fcntl(fd, cmd, x);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return o->flags;
  return 0;
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) {
  if (!(fl & MAP_ANONYMOUS)) return __real_mmap(a, n, pr, fl, fd, off);
  if (n == 0) { errno = EINVAL; return MAP_FAILED; }
  int e = enter_op(MMAP, "anonymous", ""); if (e) { errno = ENOMEM; return MAP_FAILED; }
  void* p = __real_mmap(a, n, pr, fl, -1, 0);
  if (p != MAP_FAILED) { maps[p] = n; mmap_live += n; }
  return p;
}
int __wrap_munmap(void* p, size_t n) {
  auto i = maps.find(p); if (i != maps.end()) { size_t m = n < i->second ? n & ~(size_t)4095 : i->second; mmap_live -= m; if (m < i->second) { maps[(char*)p + m] = i->second - m; } maps.erase(i); }
  return __real_munmap(p, n);
}
void* __wrap_mremap(void* p, size_t a, size_t b, int fl, ...) {
  void* q = __real_mremap(p, a, b, fl);
  if (q != MAP_FAILED) { auto i = maps.find(p); if (i != maps.end()) { mmap_live -= i->second; maps.erase(i); } maps[q] = b; mmap_live += b; }
  return q;
}
// clock, identity, randomness
static uint64_t tick() { if (!clock_frozen) now_us += 1; return now_us; }
int __wrap_clock_gettime(clockid_t, struct timespec* ts) { uint64_t t = tick(); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { uint64_t t = tick(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
time_t __wrap_time(time_t* p) { uint64_t t = tick() / 1000000; if (p) *p = t; return t; }
pid_t __wrap_getpid(void) { return 4242; }
uid_t __wrap_getuid(void) { return 0; }
static uint64_t rs = 1;
int __wrap_rand(void) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)(rs >> 33) & 0x7fffffff; }
void __wrap_srand(unsigned) {}
long __wrap_random(void) { return __wrap_rand(); }
int __wrap_rand_r(unsigned*) { return __wrap_rand(); }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned) { unsigned char* c = (unsigned char*)b; for (size_t i = 0; i < n; i++) c[i] = __wrap_rand(); return n; }
unsigned __wrap_sleep(unsigned s) { now_us += (uint64_t)s * 1000000; return 0; }
int __wrap_usleep(useconds_t u) { now_us += u; return 0; }
int __wrap_nanosleep(const struct timespec* ts, struct timespec*) { now_us += (uint64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000; return 0; }
}

// In-memory file system and OS model interposed at link time (see DESIGN.md).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <map>
#include <memory>
#include <vector>
#include <functional>

namespace fs {

enum Op { OPEN, CREAT, CLOSE, READ, WRITE, SYNC, TRUNC, SEEK, RENAME, UNLINK, MKDIR, RMDIR,
          OPENDIR, READDIR, STAT, FLOCK, MMAP, NETGET, NETPUT, OPCOUNT };
extern const char* op_name[];

typedef std::shared_ptr<const std::string> Blob;

// one directory entry of a saved image
struct Ent { bool dir = false; Blob cur, dur; };
struct Image {
  std::map<std::string, Ent> ents;
  uint64_t hash(bool power = false) const;
  std::string list() const;
};

extern const char* ROOT;                     // all paths below this are in memory

void     reset();                            // empty file system, all handles closed
Image    snapshot();
void     restore(const Image&);              // becomes the current contents; cur and dur as in the image
void     drop_handles();                     // process death: every open handle and lock disappears
int      open_handles();                     // open descriptors + directory streams
std::string handle_list();
std::vector<std::pair<std::string, std::string>> open_files();   // path at open, path now ("" if removed)
std::map<std::string, size_t> listing();     // path -> size
bool     exists(const std::string& path);
std::string read_file(const std::string& path);
void     write_file(const std::string& path, const std::string& data);
void     remove_file(const std::string& path);
// cloud server (see s3.cc): one request; returns an error to fail with, *cut if the answer is cut off
int      net_call(bool change, const std::string& what, int* cut);
void     server_put(const std::string& path, const std::string* data);   // null: bucket
void     server_remove(const std::string& path);
uint64_t op_count();                         // number of modelled calls so far

// crash-point recording: called before each mutating call and for torn variants of writes
struct Point { uint64_t n; Op op; std::string path; std::string what; };
typedef std::function<void(const Point&, const Image&)> Recorder;
void     set_recorder(Recorder, bool torn);
void     clear_recorder();

// fault injection
struct Fault {
  enum Kind { NONE, ONCE, STICKY, SHORT, PARTIAL } kind = NONE;
  uint64_t at = 0;                           // index of the faultable call, counted from arm()
  int err = 5;
  bool sticky_writes_only = true;
};
void     arm(const Fault&);
void     disarm();
bool     fault_fired();
std::string fault_where();
uint64_t faultable_calls();                  // since arm()
void     fault_mask(uint32_t ops);           // which ops count as faultable

// power-loss variants of an image
enum Loss { L_NONE, L_ALL, L_HALF, L_TAIL1, L_COUNT };
Image    lose(const Image&, int variant);
// files with unflushed data in the image
std::vector<std::string> unflushed(const Image&);
Image    lose_mask(const Image&, uint32_t keep_mask);

// virtual time
extern uint64_t now_us;
extern bool     clock_frozen;
extern bool     reverse_readdir;
extern uint64_t urandom_opens;
extern bool     mmap_track;
extern uint64_t mmap_live;                   // bytes of live anonymous maps made by the code

// scheduling hook: called at each modelled call
extern void (*sched_hook)(Op, const char* path);
}

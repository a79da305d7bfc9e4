// Thin wrapper over the public API plus the reference model (a sorted map).
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include "run.h"
#include "fs.h"
#include "sched.h"
extern "C" {
#include <monotone.h>
}

static const uint64_t AUTO = UINT64_MAX;

struct Ev { uint64_t id; std::string key, val; bool del; };
inline Ev put(uint64_t id, const std::string& val, const std::string& key = "") { return Ev{id, key, val, false}; }
inline Ev del(uint64_t id, const std::string& key = "") { return Ev{id, key, "", true}; }
std::string show(const Ev&);
std::string show(const std::vector<Ev>&);
std::string quote(const std::string& s);

typedef std::pair<uint64_t, std::string> Key;
typedef std::map<Key, std::string> Model;    // std::string compares as unsigned char, shorter first on ties
void upd(Model&, const std::vector<Ev>&);
uint64_t hash_model(const Model&);
std::string show(const Model&, size_t lim = 20);
std::string show_key(const Key&);

struct Conf {                                // settings executed before open
  std::vector<std::string> pre;
};

struct Db {
  monotone_t* h = nullptr;
  std::string path;
  std::vector<std::string> pre;
  bool serial = false;
  int workers = 0;
  std::string err;                           // text of the last error
  static bool watch;
  static bool elsewhere;                     // run writes and commands in a thread of their own: locks belong to threads
  Db();
  ~Db();
  Db(const Db&) = delete;
  // false on error
  bool init();
  bool open();                               // init + pre settings + open
  void close();
  bool exec(const std::string& cmd);
  bool exec(const std::string& cmd, std::string* out);
  std::string must(const std::string& cmd);  // fails the case on error
  bool write(const std::vector<Ev>& b);
  bool write_raw(std::vector<monotone_event_t>& b);
  void must_write(const std::vector<Ev>& b);
  // reading: false on error; events appended in cursor order
  bool scan(std::vector<std::pair<Key, std::string>>* out, const Key* from = nullptr, size_t limit = SIZE_MAX);
};
// all memory of a database must be returned when it is closed
struct HeapWatch { HeapWatch() { Db::watch = true; } ~HeapWatch(); };
struct Elsewhere { Elsewhere() { Db::elsewhere = true; } ~Elsewhere() { Db::elsewhere = false; } };
// compare a scan with the model; throws Fail(sig,...)
void check_scan(Db&, const Model&, const std::string& sig, const Key* from = nullptr, size_t limit = SIZE_MAX);
bool scan_equals(Db&, const Model&, std::string* why);
std::string diff(const Model& want, const std::vector<std::pair<Key, std::string>>& got);
Model to_model(const std::vector<std::pair<Key, std::string>>& got);

// default settings for deterministic, single-threaded checking
std::vector<std::string> base_conf();

// tiny JSON reader (for SHOW output)
struct J {
  enum K { NUL, BOOL, INT, REAL, STR, ARR, OBJ } k = NUL;
  bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  const J& operator[](const std::string&) const; const J& operator[](size_t) const; size_t size() const { return k == ARR ? a.size() : o.size(); }
  bool has(const std::string&) const;
};
J parse_json(const std::string&);
struct Part { uint64_t id, min, max, events; std::string storage; bool in_memory, in_storage, in_cloud; J raw; };
std::vector<Part> partitions(Db&);
std::string create_cloud(bool s3);          // the mock provider, or the S3 provider (server: s3.cc)

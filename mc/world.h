// A database plus the reference map, driven by small "actions"; crash, power-loss and fault
// exploration are built on top of it.
#pragma once
#include "db.h"
#include <unordered_set>

struct Act {
  enum K { WRITE, CMD, DROP, REOPEN, SVC, STEP, SCAN, KILL, FAILREF } k = CMD;
  std::string cmd;                 // CMD / DROP
  std::vector<Ev> batch;           // WRITE
  uint64_t a = 0, b = 0; bool range = false;   // DROP
  bool may_fail = false;           // an error is an accepted outcome (without effect)
  bool alter = false;              // configuration change
  std::string name() const;
};
Act W(const std::vector<Ev>& b);
Act C(const std::string& cmd);
Act CF(const std::string& cmd);    // may fail
Act D(uint64_t id);                // drop partition if exists
Act DR(uint64_t a, uint64_t b);    // drop range
Act FailRefresh(uint64_t id, int stage);   // refresh which fails at a stage (1..3)
Act Reopen(); Act Svc(); Act Step(); Act Scan(); Act Kill();

enum Layout { L_PLAIN, L_MULTI, L_CLOUD, L_CLOUD_KEEP, L_PIPE, L_MIXED, L_LAYOUTS };
extern const char* layout_name[];

struct World {
  Db db; Model m; int lay = 0; int step = 0;
  std::vector<std::string> extra;  // additional pre-open settings
  std::vector<Model> allowed;      // contents allowed if the process dies now
  std::vector<std::string> events;
  bool scan_each = false;
  World(int layout, const std::vector<std::string>& pre = {});
  void start();                    // fresh database in the layout (cached image)
  Act tag(const Act&, int step) const;   // values made unique per step
  bool act(const Act&, const std::string& sig);  // false if it failed (only if may_fail)
  void check(const std::string& sig, const Key* from = nullptr);
  void settle();                   // run queued background work
  void reopen(const std::string& sig);
  Db& d() { return db; }
};
// apply a data drop to a model, given the partitions
std::vector<Model> drop_steps(const std::vector<Part>&, const Model&, const Act&);
// names of partition files which are leftovers of an unfinished operation
std::vector<std::string> leftovers();
void check_no_handles(const std::string& sig);

// crash exploration: verify one image
struct Crash {
  int lay; std::vector<std::string> extra;
  std::string sig;                 // prefix for failure messages
  int depth = 1;                   // crashes during recovery explored to this depth
  bool power = false;              // power loss instead of process death
  bool torn = true;
  std::function<void(World&, const Model&)> after;  // continuation on the recovered database
  std::function<void(World&)> opened;               // extra check right after open
  std::function<bool(World&, Model*)> accept;
  uint64_t salt = 0;
  bool quick_after = false;
};
struct Cap { fs::Image img; std::vector<Model> allowed; std::string what; };
// run f with the recorder on; every distinct image with the models allowed at that moment
void capture(World& w, bool torn, bool power, std::vector<Cap>& out, const std::function<void()>& f);
void explore(Ctx&, const Crash&, std::vector<Cap>& caps, int depth);
void standard_after(World& w, const Model& m, const std::string& sig, const Act* repeat);

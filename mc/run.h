// Case runner: enumerates the cases of a property over worker processes and reports.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <functional>

struct Fail { std::string sig, detail; };

struct Ctx {
  bool thorough = false, verbose = false;
  uint64_t index = 0, sub = 0;          // case index inside its family
  std::string trail;                    // what this case did so far (for reports)
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void op(uint64_t n = 1);              // operations / transitions executed on the implementation
  void exec(uint64_t n = 1);            // complete executions (traces) of the implementation
  void state(uint64_t h);               // an observed state (deduplicated by hash)
  void sample(const std::string& s);    // a written-out case
  void want(const char* what);          // counts a named coverage item
  void want(const char* what, uint64_t n);
};
extern Ctx* g_ctx;

[[noreturn]] void fail(const std::string& sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fail_now(const std::string& sig, const std::string& detail);   // from any thread or hook
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Family {
  std::string name;
  uint64_t count;
  std::function<void(Ctx&, uint64_t)> run;
};
struct Prop {
  std::string id, level, rule;
  std::vector<std::string> assumptions;
  std::function<void(bool thorough, std::vector<Family>&)> families;
};
void add_prop(const Prop&);
struct PropReg { PropReg(const Prop& p) { add_prop(p); } };

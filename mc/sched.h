// Controlled thread scheduler: every pthread primitive used by the code under test is
// simulated here; exactly one thread runs at a time and every switch is a recorded choice.
#pragma once
#include <stdint.h>
#include <vector>
#include <string>
#include <functional>
namespace sched {
struct Choice { uint16_t n; uint16_t pick; };   // picks other than 0 cost one of the deviation budget

void init();                                   // calling thread becomes thread 0
int  spawn(std::function<void()> fn, const char* name); // controlled thread (not running yet)
void join(int tid);
void run_solo(std::function<void()> fn, const char* name); // to its end, other threads only while it is blocked
int  self();
void run_others();                             // run every other thread until all are blocked or done

// exploration of one execution
struct Exec {
  std::vector<Choice> prefix;                  // forced choices
  std::vector<Choice> trace;                   // choices made
  uint64_t steps = 0, switches = 0; bool diverged = false;
};
void begin(Exec*, int budget, bool fs_points, bool unlock_points); // start recording / forcing
void end();
bool exploring();
// every schedule with at most `bound` deviations from the default one; body runs one execution
// between begin and end and is called once per schedule. Returns the number of schedules.
uint64_t explore(int bound, bool fs_points, bool unlock_points, uint64_t shard, uint64_t shards, uint64_t limit, const std::function<void(Exec&)>& body);
void start_exec(Exec&);                        // called by body when the concurrent part begins
uint64_t max_steps();
extern uint64_t total_points;

// called on deadlock / step overrun; must not return
extern void (*on_deadlock)(const std::string& what);
std::string describe();                        // thread states, for reports
void reset_objects();                          // forget all lock states (process death)
}

// Happens-before tracking over the memory accesses of the code under test (variant "race": the
// code is compiled with access callbacks). Instructions which take part in a data race become
// scheduling points, so that every interleaving of them is explored as well.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <vector>
#include <string>
namespace race {
extern bool active;                // between begin and end of the explored part
extern bool detect, points;        // collect racing instructions / use them as scheduling points
extern int  (*tid)();              // current thread
extern void (*point)();            // scheduling point
extern bool have_callbacks;        // the code calls back at all
void begin();                      // forget all clocks and accesses
void fork(int child, int parent); void acquire(int t, const void* o); void release(int t, const void* o); void acquire_r(int t, const void* o);
void release_r(int t, const void* o); void acquire_thread(int t, int other);
void freed(const void* p, size_t n);
size_t racy();                     // number of racing instructions so far
std::vector<void*> racy_list(); void clear();
extern uint64_t accesses;
}

namespace heap {
void track(bool on);          // forget everything; count allocations of the code under test from now on
size_t live();
std::string list();
}

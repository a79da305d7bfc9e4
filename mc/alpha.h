// alphabets of actions shared by the sequence, crash and fault checks
#pragma once
#include "world.h"
inline std::vector<Act> writes() {
  return { W({put(1, "x"), put(2, "y", "a"), put(5, "z")}), W({put(1, "r"), del(5), put(9, "w", "k"), put(0, "")}), W({del(2, "a"), put(5, "q"), put(3, std::string(50, 'L'))}) };
}
inline std::vector<Act> maint(int lay) {
  std::vector<Act> v = { C("refresh partition if exists 0"), C("refresh partitions between 0 and 100") };
  if (lay == L_MULTI || lay == L_MIXED || lay == L_CLOUD || lay == L_CLOUD_KEEP) { v.push_back(C("move partition if exists 0 into s1")); v.push_back(C("move partitions between 0 and 100 into s2")); v.push_back(C("move partition if exists 0 into main")); }
  if (lay == L_CLOUD || lay == L_CLOUD_KEEP || lay == L_MIXED) { v.push_back(C("upload partitions between 0 and 100 if cloud")); v.push_back(C("download partition if exists 0 if cloud")); }
  if (lay == L_PIPE) v.push_back(C("rebalance"));
  return v;
}
inline std::vector<Act> background() { return { Svc(), C("checkpoint"), C("debug 'wal_create'"), C("debug 'wal_gc'"), Reopen(), Step() }; }
inline std::vector<Act> alters(int lay) {
  std::vector<Act> v = { C("alter storage main set (compression 'zstd')"), CF("alter storage main set (encryption 'aes', encryption_key 'fedcba9876543210fedcba9876543210')"), C("set interval to 6") };
  if (lay == L_MULTI || lay == L_MIXED) v.push_back(CF("alter storage s1 rename to s1"));
  return v;
}
inline std::vector<Act> cat(std::vector<Act> a, const std::vector<Act>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline uint64_t ipow(uint64_t a, int n) { uint64_t r = 1; while (n--) r *= a; return r; }

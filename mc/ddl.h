// Reference semantics of the command language: an independent tokenizer, parser and interpreter
// over an abstract database state (see DESIGN.md, C09 and C21).
#pragma once
#include "world.h"

struct RCloud { std::string type, login, password, url; bool debug = false; };
struct RStorage {
  std::string uuid, path, cloud, compression, encryption, key; bool cloud_drop_local = true, sync = true, crc = false;
  uint64_t refresh_wm = 40 << 20, region_size = 128 * 1024, level = 0;
 
};
struct RTier { std::string storage; int64_t partitions = -1, size = -1, events = -1, duration = -1; };
struct RPart { uint64_t min, max; std::string storage; bool local = false, cloud = false; Model stored, mem; };
struct RVar { enum T { BOOL, INT, STR } t; bool online, hidden, saved, nonzero; uint64_t i; std::string s; };
struct DState {
  std::map<std::string, RCloud> clouds;
  std::vector<std::pair<std::string, RStorage>> storages;
  std::vector<RTier> pipe;
  std::map<std::string, RVar> vars;
  std::map<uint64_t, RPart> parts;
  Model ghost;   // dropped with the only copy, may come back after a restart (known finding of C08)
  RStorage* storage(const std::string&); RCloud* cloud(const std::string&);
  Model events() const; bool used(const std::string& storage) const;
  std::string show(bool parts, bool secrets) const;
};
enum RRes { R_OK, R_ERR, R_ANY };     // R_ANY: outcome not specified, state must not change
struct RExec { RRes res; bool maint = false; std::string why; bool adopt = false; };
// parse and execute text on the state; on R_ERR the state is untouched
bool readable(const DState&);   // no events are on a server which does not answer
RExec ref_exec(DState&, const std::string& text);
// state of the running database (partitions and events too); keys and passwords are taken from
// the configuration file
DState read_state(Db&, bool parts = true);
// fields which a command leaves to the implementation (generated uuid and key) are taken from got
void adopt(DState& want, const DState& got);
std::string state_diff(const DState& want, const DState& got, bool parts);

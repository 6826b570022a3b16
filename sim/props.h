// The properties: how a run is generated, executed and judged.
#ifndef SIM_PROPS_H_
#define SIM_PROPS_H_

#include <functional>
#include <string>
#include <vector>

#include "core.h"

namespace sim {

struct Outcome {
  int status;               // 1 held, 2 violation, 3 inconclusive
  std::string signature;
  std::string detail;
  int fail_op;
  int variant;
  uint64_t hash;            // of the complete histories of all executions
  int execs;
  bool timeout;
  Outcome() : status(1), fail_op(-1), variant(0), hash(0), execs(0), timeout(false) {}
};

struct PropDef {
  const char* id;
  void (*gen)(Plan*, uint64_t run, bool thorough);
  int (*variants)(const Plan&);
  void (*exec)(const Plan&, int variant);
  void (*judge)(const Plan&, const std::vector<Result*>&, Outcome*);
  const char* rule;         // evidence: how cases are made, what is non-trivial
};
const std::vector<PropDef>& Props();
const PropDef* FindProp(const std::string& id);

}  // namespace sim
#endif

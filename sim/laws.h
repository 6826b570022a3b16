// Laws: relations between inputs and answers that every solution satisfies,
// judged on the real objects with independent arithmetic.
#ifndef SIM_LAWS_H_
#define SIM_LAWS_H_

#include <string>

#include "world.h"

namespace sim {

enum LawGroup { kLawCatenary = 1, kLawCable = 2, kLawThermal = 4 };
// Evaluates the laws of entity e; reports a violation. `pick` selects which
// questions are asked.  Returns the number of relations that were judged.
int CheckLaws(const World& w, int e, uint64_t pick);
// the types of objects that have laws, by group
std::vector<KindId> LawKinds(int groups);

}  // namespace sim
#endif

// A world: library objects wired together by a simulated client, their
// specification (what was last set), and fresh replicas built from it.
#ifndef SIM_WORLD_H_
#define SIM_WORLD_H_

#include <map>
#include <string>
#include <vector>

#include "kinds.h"

namespace sim {

struct EntSpec {
  KindId kind;
  std::vector<std::vector<double>> lit;  // per slot
  std::vector<int> ref;                  // per slot: entity id or -1
  std::vector<char> set;                 // per slot
};

class World {
 public:
  World() {}
  ~World();
  int Add(KindId kind);                  // creates the object, nothing set
  int AddShared(const World& other, int e);  // borrows an object of another world
  void SetLit(int e, int slot, const std::vector<double>& v);
  void SetRef(int e, int slot, int target);
  void Withdraw(int e, int slot);
  void Apply(int e, int slot);           // hands the specified value over
  void Propagate(int e);                 // re-hands e to everything using it
  void ApplyAll(int e);
  void Destroy(int e);
  void DestroyAll();
  void Restart(int e);                   // destroys and rebuilds one object
  int Clone(int e);                      // copy constructor
  void Assign(int dst, int src);         // copy assignment
  bool HasConsumers(int e) const;
  bool Complete(int e) const;            // every reference set, transitively
  bool Untainted(int e) const;

  // fresh deep copy of the specification of e; owns its objects
  World* Replica(int e, int* root) const;

  const Kind& K(int e) const { return Kinds()[spec[e].kind]; }
  std::string Name(int e) const;
  uint64_t SpecHash(int e) const;

  std::vector<EntSpec> spec;
  std::vector<void*> obj;                // null when destroyed
  std::vector<char> owned;
};

// Executes one query / validation with exceptions turned into text.
// An exception is reported as text starting with "EXC:".
void RunQuery(const World& w, int e, int q, const double* args, Answer* a);
void RunValidate(const World& w, int e, bool warnings, bool with_list, Answer* a);
// Validates with a list; returns the verdict and the texts of the messages.
bool ValidateTexts(const World& w, int e, bool warnings, std::vector<std::string>* out);
void RunRead(const World& w, int e, Answer* a);   // all getters
// Creates one object of every type, of which nothing is set, and records what
// it reads and whether it is valid.
void ReadNewObjects(int stack_fill, uint64_t seed);
std::vector<double> QueryArgs(const Query& q, uint64_t seed, int flavor);

// Kinds needed by `root`, dependencies first, root last.
std::vector<KindId> Closure(KindId root);
// Builds the graph for one root: entities, random wiring, valid values.
// Returns the entity id of the root.  `shared` (may be null) provides plain
// data entities of another world, which are borrowed instead of created.
struct GraphOpts {
  double spare;          // probability of a second entity per kind
  int roots;             // how many root objects
  bool configure;        // set all slots to valid values
  const World* shared;
  int flavor_pct;        // chance of a bad initial value
  GraphOpts() : spare(0.6), roots(1), configure(true), shared(nullptr), flavor_pct(0) {}
};
int BuildGraph(World* w, KindId root, uint64_t seed, const GraphOpts& o);

const std::vector<KindId>& CalculatorKinds();

}  // namespace sim
#endif

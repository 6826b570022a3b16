// Deterministic simulator core: PRNG, allocator seam, step/preemption seam,
// fibers, plans, transcripts and forked executions.
#ifndef SIM_CORE_H_
#define SIM_CORE_H_

#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG ----
inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t Combine(uint64_t a, uint64_t b) { return Mix(a * 31 + Mix(b)); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(Mix(seed)) {}
  uint64_t Next() { s += 0x9E3779B97F4A7C15ull; return Mix(s); }
  // uniform integer in [0, n)
  int Int(int n) { return n <= 0 ? 0 : static_cast<int>(Next() % static_cast<uint64_t>(n)); }
  int Range(int lo, int hi) { return lo + Int(hi - lo + 1); }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
  bool Chance(double p) { return Unit() < p; }
};

// ---------------------------------------------------------------- plans ---
// One simulated execution is a pure function of a Plan and the code.
struct Op {
  int code;
  int a[6];
  int fault;   // 0: none; meaning depends on the property's fault kinds
  int farg;
  Op() : code(0), fault(0), farg(0) { memset(a, 0, sizeof(a)); }
};

struct Quantum {  // scheduler decision: run session `who` for `len` steps
  int who;
  int len;
};

struct Plan {
  std::string property;
  uint64_t seed;                       // run seed (already mixed)
  std::map<std::string, int64_t> cfg;  // swarm configuration
  std::vector<Op> ops;
  std::vector<Quantum> sched;
  Plan() : seed(0) {}
  int64_t Cfg(const std::string& k, int64_t d) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
};

std::string PlanToText(const Plan& p, const std::string& comment);
bool PlanFromText(const std::string& text, Plan* p);

// ---------------------------------------------------- results of a run ----
enum { kMaxEntries = 2000, kMaxFaultKinds = 24, kMaxStates = 4096 };

struct Entry {       // one observable event of the history
  uint64_t hash;     // hash of the complete answer
  int32_t op;        // op index it belongs to
  int32_t n;         // number of values in the answer
  double v[4];       // first values, for reporting only
  char what[56];     // which question
};

enum FaultKind {
  kFaultAllocFail = 0, kFaultPreempt, kFaultBadInput, kFaultRejectedEdit,
  kFaultRestart, kFaultSourceDestroyed, kFaultSourceEdited, kFaultMemoryPattern,
  kFaultExtraObservation, kFaultAbandonedConfig, kFaultInPlaceEdit,
  kFaultCascade, kFaultChurn, kFaultRepair, kFaultReuse,
  kFaultStackPattern, kFaultWithdrawn, kFaultKindCount
};
extern const char* const kFaultNames[];

struct Result {              // lives in shared memory, written by the child
  int32_t status;            // 0 not finished, 1 ok, 2 violation, 3 skipped
  char signature[256];       // violation class: stable text
  char detail[2048];         // human readable description
  int32_t fail_op;
  int32_t n_entries;
  uint64_t log_hash;         // hash of the whole event log
  int64_t steps;             // library basic-block edges executed
  int64_t lib_allocs;
  int64_t leak_count;        // library allocations still live at the end
  int64_t queries, edits, rejected, failed_answers, ok_answers, compared;
  int64_t simulated_seconds;
  int64_t max_op_steps;
  int64_t switches;
  int64_t faults[kMaxFaultKinds];
  int64_t probes[32];
  int32_t n_states;
  uint64_t states[kMaxStates];
  int32_t cur_op;            // progress marker, for crashes
  char cur_what[128];
  Entry entries[kMaxEntries];
};

// -------------------------------------------------- the running sim -------
struct AllocSim {
  int scope;                 // >0: inside a library call
  int64_t count;             // library allocations since arm
  int64_t fail_at;           // 1-based index to fail at; 0 = never
  int64_t fired;
  int fill_mode;             // 0 none, 1 zero, 2 ones, 3 pattern, 4 random
  uint64_t fill_state;
  int64_t total;
  int pad;                   // extra bytes: perturbs addresses
};
extern AllocSim g_alloc;
int64_t LiveLibAllocs();

struct LibScope {
  LibScope() { ++g_alloc.scope; }
  ~LibScope() { --g_alloc.scope; }
};
#define LIB(expr) ([&]() { ::sim::LibScope lib_scope_; return (expr); }())

struct StepSim {
  int64_t steps;             // total edges executed inside library scope
  int64_t op_start;          // steps at the beginning of the current op
  int64_t op_budget;         // max steps per op (0 = unlimited)
  int64_t switch_at;         // preempt when steps reach this (0 = never)
};
extern StepSim g_step;
void DumpEdges(const std::string& path);   // for tools/coverage.py
int64_t CoveredEdges();      // number of distinct library edges seen
extern volatile unsigned char* g_cov_map;  // shared edge map (may be null)
extern uint32_t g_cov_size;

extern Result* g_res;
extern bool g_verbose;

// Reports a violation from inside a run and ends the run's process.
[[noreturn]] void Violate(const std::string& signature, const std::string& detail);
// Ends the run quietly (inconclusive execution; never a violation).
[[noreturn]] void Skip(const std::string& why);
void Progress(int op, const std::string& what);
inline void CountFault(FaultKind k) { if (g_res) g_res->faults[k]++; }
void State(uint64_t h);
void StateRaw(uint64_t h);      // records a distinct abstract state

// ----------------------------------------------------------- answers ------
struct Answer {
  std::vector<double> v;
  std::string s;             // text part: exception, messages
  void Num(double x) { v.push_back(x); }
  void Text(const std::string& t) { s += t; s += '\n'; }
  uint64_t Hash() const;
  bool Failed() const;       // looks like the library's error value
  std::string Show() const;
};
bool SameAnswer(const Answer& a, const Answer& b, double rel);
void Record(int op, const Answer& a);
void RecordHash(int op, uint64_t h);

// ------------------------------------------------------------ fibers ------
void PaintStack(size_t n, int mode, uint64_t seed);
void RunOnFiber(const std::function<void()>& fn, int fill_mode, uint64_t fill_seed);
// Runs all sessions to completion; who runs when is decided by the quanta.
void RunSessions(const std::vector<std::function<void()>>& fns,
                 const std::vector<Quantum>& sched, bool preempt);
int CurrentSession();

// ------------------------------------------------- forked executions ------
struct ExecStatus {
  bool crashed;
  bool timeout;
  std::string crash_signature;
  std::string crash_text;
};
// Runs fn in a forked child with `res` (shared memory) as its result.
ExecStatus ForkRun(Result* res, const std::function<void()>& fn, int timeout_s);
Result* NewSharedResult();
void ClearResult(Result* r);
std::string StrF(const char* fmt, ...);

}  // namespace sim

#endif  // SIM_CORE_H_

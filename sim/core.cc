#include "core.h"

#include <cxxabi.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <fstream>
#include <new>
#include <sstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=77:"
         "handle_abort=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=8:"
         "alloc_dealloc_mismatch=0:max_malloc_fill_size=0:print_legend=0:"
         "print_full_thread_history=0:print_summary=1:symbolize=1:"
         "malloc_context_size=6:detect_odr_violation=0:max_allocation_size_mb=2048";
}
#endif

namespace sim {

const char* const kFaultNames[] = {
  "allocation_failure", "preemption", "bad_input_window", "rejected_edit",
  "client_restart", "source_destroyed", "source_edited_after_copy",
  "heap_garbage_pattern", "extra_observation", "abandoned_configuration",
  "in_place_input_edit", "cascading_delete", "heap_churn", "input_repaired",
  "object_reuse", "stack_garbage_pattern", "input_withdrawn"};

AllocSim g_alloc;
StepSim g_step;
Result* g_res = nullptr;
bool g_verbose = false;
volatile unsigned char* g_cov_map = nullptr;
uint32_t g_cov_size = 0;

// ------------------------------------------------ allocator seam ----------
// Side table of live library allocations (open addressing, no allocation).
enum { kTable = 1 << 18 };
static void* g_table[kTable];
static int64_t g_live = 0;
static void* const kTomb = reinterpret_cast<void*>(1);

static void TableAdd(void* p) {
  if (g_live > kTable / 2) return;
  size_t i = Mix(reinterpret_cast<uintptr_t>(p)) & (kTable - 1);
  while (g_table[i] != nullptr && g_table[i] != kTomb) i = (i + 1) & (kTable - 1);
  g_table[i] = p;
  ++g_live;
}
static void TableDel(void* p) {
  size_t i = Mix(reinterpret_cast<uintptr_t>(p)) & (kTable - 1);
  for (size_t n = 0; n < kTable && g_table[i] != nullptr; ++n) {
    if (g_table[i] == p) { g_table[i] = kTomb; --g_live; return; }
    i = (i + 1) & (kTable - 1);
  }
}
int64_t LiveLibAllocs() { return g_live; }

static void Fill(void* p, size_t n, int mode, uint64_t* state) {
  unsigned char* b = static_cast<unsigned char*>(p);
  switch (mode) {
    case 1: memset(b, 0, n); break;
    case 2: memset(b, 0xFF, n); break;
    case 3: memset(b, 0xA5, n); break;
    case 4:
      for (size_t i = 0; i < n; ++i) {
        *state = *state * 6364136223846793005ull + 1442695040888963407ull;
        b[i] = static_cast<unsigned char>(*state >> 56);
      }
      break;
    case 5: memset(b, 1, n); break;
    default: break;
  }
}

static void* SimNew(size_t n) {
  if (g_alloc.scope > 0) {
    ++g_alloc.count;
    ++g_alloc.total;
    if (g_alloc.fail_at > 0 && g_alloc.count == g_alloc.fail_at) {
      ++g_alloc.fired;
      return nullptr;
    }
    void* p = malloc((n == 0 ? 1 : n) + 0);
    if (p == nullptr) return nullptr;
    Fill(p, n, g_alloc.fill_mode, &g_alloc.fill_state);
    TableAdd(p);
    return p;
  }
  return malloc(n == 0 ? 1 : n);
}
static void SimDelete(void* p) {
  if (p == nullptr) return;
  if (g_live > 0) TableDel(p);
  free(p);
}

}  // namespace sim

void* operator new(size_t n) {
  void* p = sim::SimNew(n);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = sim::SimNew(n);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::SimNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::SimNew(n); }
void operator delete(void* p) noexcept { sim::SimDelete(p); }
void operator delete[](void* p) noexcept { sim::SimDelete(p); }
void operator delete(void* p, size_t) noexcept { sim::SimDelete(p); }
void operator delete[](void* p, size_t) noexcept { sim::SimDelete(p); }

namespace sim {

// ------------------------------------------------ step seam ---------------
static void SwitchFromLibrary(uint32_t edge);
static const uintptr_t* g_cov_pcs = nullptr;
static size_t g_cov_pcs_size = 0;

}  // namespace sim

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* g = start; g < stop; ++g) *g = ++sim::g_cov_size;
}

// program counters of the edges, in the order of their guards
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t* beg, const uintptr_t* end) {
  sim::g_cov_pcs = beg;
  sim::g_cov_pcs_size = static_cast<size_t>(end - beg) / 2;
}

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (sim::g_alloc.scope <= 0) return;
  if (sim::g_cov_map != nullptr && *guard < 65536) sim::g_cov_map[*guard] = 1;
  int64_t s = ++sim::g_step.steps;
  if (sim::g_step.op_budget > 0 && s - sim::g_step.op_start > sim::g_step.op_budget) {
    sim::g_step.op_budget = 0;
    if (sim::g_res != nullptr) {
      sim::Violate(std::string("no-progress:") + sim::g_res->cur_what,
                   sim::StrF("the call did not return within its budget of simulated "
                             "steps (%lld executed)",
                             static_cast<long long>(s - sim::g_step.op_start)));
    }
  }
  if (sim::g_step.switch_at > 0 && s >= sim::g_step.switch_at) sim::SwitchFromLibrary(*guard);
}

namespace sim {

extern "C" char __executable_start;

void DumpEdges(const std::string& path) {
  std::ofstream out(path);
  for (size_t i = 0; i < g_cov_pcs_size && i + 1 < 65536; ++i)
    out << (g_cov_map != nullptr && g_cov_map[i + 1] ? "1 0x" : "0 0x") << std::hex << g_cov_pcs[2 * i] - reinterpret_cast<uintptr_t>(&__executable_start)
        << std::dec << "\n";
}

int64_t CoveredEdges() {
  int64_t n = 0;
  if (g_cov_map != nullptr)
    for (int i = 0; i < 65536; ++i) n += g_cov_map[i] ? 1 : 0;
  return n;
}

// ------------------------------------------------ reporting ---------------
static void FinishResult() {
  g_res->steps = g_step.steps;
  g_res->lib_allocs = g_alloc.total;
}

void Violate(const std::string& signature, const std::string& detail) {
  int saved = g_alloc.scope;
  g_alloc.scope = 0;
  (void)saved;
  g_step.switch_at = 0;
  g_step.op_budget = 0;
  if (g_res != nullptr) {
    snprintf(g_res->signature, sizeof(g_res->signature), "%s", signature.c_str());
    snprintf(g_res->detail, sizeof(g_res->detail), "%s", detail.c_str());
    g_res->fail_op = g_res->cur_op;
    FinishResult();
    g_res->status = 2;
  }
  _exit(0);
}

void Skip(const std::string& why) {
  g_alloc.scope = 0;
  if (g_res != nullptr) {
    snprintf(g_res->detail, sizeof(g_res->detail), "%s", why.c_str());
    FinishResult();
    g_res->status = 3;
  }
  _exit(0);
}

void Progress(int op, const std::string& what) {
  if (g_res == nullptr) return;
  if (g_step.steps - g_step.op_start > g_res->max_op_steps)
    g_res->max_op_steps = g_step.steps - g_step.op_start;
  g_res->cur_op = op;
  snprintf(g_res->cur_what, sizeof(g_res->cur_what), "%s", what.c_str());
  g_step.op_start = g_step.steps;
  if (g_verbose) fprintf(stdout, "  op %d: %s\n", op, what.c_str());
}

static bool g_edge_states = false;   // sessions: only preemption points are counted
void State(uint64_t h) {
  if (!g_edge_states) StateRaw(h);
}
void StateRaw(uint64_t h) {
  if (g_res == nullptr || g_res->n_states >= kMaxStates) return;
  for (int i = g_res->n_states - 1, k = 0; i >= 0 && k < 16; --i, ++k)
    if (g_res->states[i] == h) return;
  g_res->states[g_res->n_states++] = h;
}

// ------------------------------------------------ answers -----------------
static uint64_t Bits(double d) {
  if (d != d) return 0x7FF8000000000000ull;
  if (d == 0) d = 0;
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
uint64_t Answer::Hash() const {
  uint64_t h = 1469598103934665603ull;
  for (double d : v) h = Combine(h, Bits(d));
  for (char c : s) h = Combine(h, static_cast<unsigned char>(c));
  return h;
}
bool Answer::Failed() const {
  if (s.compare(0, 4, "EXC:") == 0) return true;
  for (double d : v) if (d == -999999 || d != d) return true;
  return v.empty() && s.empty();
}
std::string Answer::Show() const {
  std::string o = "[";
  for (size_t i = 0; i < v.size() && i < 8; ++i) o += StrF("%s%.12g", i ? ", " : "", v[i]);
  if (v.size() > 8) o += StrF(", ... %d values", static_cast<int>(v.size()));
  o += "]";
  if (!s.empty()) {
    std::string t = s.substr(0, 200);
    for (char& c : t) if (c == '\n') c = ';';
    o += " '" + t + "'";
  }
  return o;
}
bool SameAnswer(const Answer& a, const Answer& b, double rel) {
  if (a.s != b.s || a.v.size() != b.v.size()) return false;
  double floor = 1;     // coordinates near zero share the scale of their answer
  for (double d : a.v) if (fabs(d) > floor && fabs(d) < 1e12) floor = fabs(d);
  for (size_t i = 0; i < a.v.size(); ++i) {
    double x = a.v[i], y = b.v[i];
    if (Bits(x) == Bits(y)) continue;
    if (x != x || y != y || isinf(x) || isinf(y)) return false;
    double m = fabs(x) > fabs(y) ? fabs(x) : fabs(y);
    if (fabs(x - y) > rel * m + 1e-12 * floor) return false;
  }
  return true;
}
void Record(int op, const Answer& a) {
  if (g_res == nullptr) return;
  uint64_t h = a.Hash();
  g_res->log_hash = Combine(g_res->log_hash, Combine(h, op));
  if (g_res->n_entries < kMaxEntries) {
    Entry& e = g_res->entries[g_res->n_entries++];
    e.hash = h;
    e.op = op;
    e.n = static_cast<int>(a.v.size());
    for (int i = 0; i < 4; ++i) e.v[i] = i < e.n ? a.v[i] : 0;
    snprintf(e.what, sizeof(e.what), "%s", g_res->cur_what);
  }
  if (g_verbose) fprintf(stdout, "      -> %s\n", a.Show().c_str());
}
void RecordHash(int op, uint64_t h) {
  if (g_res == nullptr) return;
  g_res->log_hash = Combine(g_res->log_hash, Combine(h, op));
}

std::string StrF(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

// ------------------------------------------------ fibers ------------------
struct Fiber {
  ucontext_t ctx;
  void* stack;
  size_t size;
  std::function<void()> fn;
  bool done;
  // saved per-fiber state
  int scope;
  unsigned char eh[16];
  void* fake_stack;
  int cur_op;
  char cur_what[128];
  int64_t steps_used;
};
static std::vector<Fiber*> g_fibers;
static ucontext_t g_main;
static int g_current = -1;
static void* g_main_fake = nullptr;
static const void* g_main_bottom = nullptr;
static size_t g_main_size = 0;
static unsigned char g_main_eh[16];

int CurrentSession() { return g_current; }

static void SwitchToMain(Fiber* f, bool final) {
  f->scope = g_alloc.scope;
  g_alloc.scope = 0;
  if (g_res != nullptr) {
    f->cur_op = g_res->cur_op;
    memcpy(f->cur_what, g_res->cur_what, sizeof(f->cur_what));
  }
  memcpy(f->eh, abi::__cxa_get_globals(), 16);
  memcpy(abi::__cxa_get_globals(), g_main_eh, 16);
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(final ? nullptr : &f->fake_stack, g_main_bottom, g_main_size);
#endif
  swapcontext(&f->ctx, &g_main);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(f->fake_stack, &g_main_bottom, &g_main_size);
#endif
  memcpy(g_main_eh, abi::__cxa_get_globals(), 16);
  memcpy(abi::__cxa_get_globals(), f->eh, 16);
  g_alloc.scope = f->scope;
  if (g_res != nullptr) {
    g_res->cur_op = f->cur_op;
    memcpy(g_res->cur_what, f->cur_what, sizeof(f->cur_what));
  }
}

static void FiberMain() {
  Fiber* f = g_fibers[g_current];
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &g_main_bottom, &g_main_size);
#endif
  memcpy(g_main_eh, abi::__cxa_get_globals(), 16);
  memset(abi::__cxa_get_globals(), 0, 16);
  g_alloc.scope = 0;
  f->fn();
  f->done = true;
  SwitchToMain(f, true);
}

static void Resume(int i) {
  Fiber* f = g_fibers[i];
  g_current = i;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(&g_main_fake, f->stack, f->size);
#endif
  swapcontext(&g_main, &f->ctx);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
#endif
  g_current = -1;
}

static uint32_t g_last_edge = 0;
static int g_in_guard = 0;   // inside the initialisation of a function-local static

static void SwitchFromLibrary(uint32_t edge) {
  if (g_current < 0 || g_in_guard > 0) return;
  StateRaw(Combine(edge, g_last_edge));   // where this session and the one before it stopped
  g_last_edge = edge;
  g_step.switch_at = 0;
  CountFault(kFaultPreempt);
  if (g_res != nullptr) g_res->switches++;
  SwitchToMain(g_fibers[g_current], false);
}

}  // namespace sim

// Function-local statics are initialised by one session at a time in real
// programs; the simulated scheduler does not preempt inside them.
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(__guard* g) {
  if (*reinterpret_cast<volatile char*>(g)) return 0;
  ++sim::g_in_guard;
  return 1;
}
extern "C" void __cxa_guard_release(__guard* g) noexcept {
  *reinterpret_cast<volatile char*>(g) = 1;
  --sim::g_in_guard;
}
extern "C" void __cxa_guard_abort(__guard*) noexcept { --sim::g_in_guard; }
}  // namespace __cxxabiv1

namespace sim {

static Fiber* MakeFiber(const std::function<void()>& fn, int fill_mode, uint64_t fill_seed) {
  Fiber* f = new Fiber();
  f->size = 1 << 20;
  f->stack = mmap(nullptr, f->size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (fill_mode != 0) {
    // only the part that is likely to be used: the top of the stack
    size_t n = 192 * 1024;
    uint64_t st = fill_seed;
    Fill(static_cast<char*>(f->stack) + f->size - n, n, fill_mode, &st);
  }
  f->fn = fn;
  f->done = false;
  f->scope = 0;
  memset(f->eh, 0, sizeof(f->eh));
  f->fake_stack = nullptr;
  f->cur_op = 0;
  f->cur_what[0] = 0;
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = f->size;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, FiberMain, 0);
  return f;
}

void RunOnFiber(const std::function<void()>& fn, int fill_mode, uint64_t fill_seed) {
  g_fibers.clear();
  g_fibers.push_back(MakeFiber(fn, fill_mode, fill_seed));
  while (!g_fibers[0]->done) Resume(0);
}

void RunSessions(const std::vector<std::function<void()>>& fns,
                 const std::vector<Quantum>& sched, bool preempt) {
  g_edge_states = true;
  g_fibers.clear();
  for (auto& fn : fns) g_fibers.push_back(MakeFiber(fn, 0, 0));
  size_t q = 0;
  int n = static_cast<int>(g_fibers.size());
  int rr = 0;
  for (;;) {
    std::vector<int> alive;
    for (int i = 0; i < n; ++i) if (!g_fibers[i]->done) alive.push_back(i);
    if (alive.empty()) break;
    int who, len = 0;
    if (preempt && q < sched.size()) {
      who = alive[static_cast<unsigned>(sched[q].who) % alive.size()];
      len = sched[q].len;
      ++q;
    } else {
      who = alive[rr++ % alive.size()];
    }
    g_step.switch_at = len > 0 ? g_step.steps + len : 0;
    Resume(who);
    g_step.switch_at = 0;
  }
}

// ------------------------------------------------ forked executions -------
Result* NewSharedResult() {
  void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return static_cast<Result*>(p);
}
void ClearResult(Result* r) {
  // entries and states are bounded by their counters
  memset(static_cast<void*>(r), 0, offsetof(Result, states));
  r->n_states = 0;
  r->cur_op = -1;
  r->cur_what[0] = 0;
  r->n_entries = 0;
}

static std::string CrashSignature(const std::string& text, std::string* brief) {
  // error kind
  std::string kind = "abort";
  size_t p = text.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    size_t b = p + strlen("ERROR: AddressSanitizer: ");
    size_t e = text.find_first_of(" \n", b);
    kind = text.substr(b, e - b);
  }
  if (text.find("attempt to") != std::string::npos || text.find("Assertion '") != std::string::npos)
    kind = "container-misuse";
  if (text.find("terminate called") != std::string::npos) kind = "terminate";
  // first frame inside the library
  std::string where = "?";
  std::istringstream in(text);
  std::string line;
  int taken = 0;
  while (std::getline(in, line)) {
    size_t at = line.find(" in ");
    if (line.find("    #") != 0 || at == std::string::npos) continue;
    size_t src = line.find("/src/");
    size_t inc = line.find("include/models/");
    if (src == std::string::npos && inc == std::string::npos) continue;
    if (line.find("/verif/") != std::string::npos) continue;
    std::string fn = line.substr(at + 4);
    size_t paren = fn.find('(');
    if (paren != std::string::npos) fn = fn.substr(0, paren);
    size_t sp = fn.find(" /");
    if (sp != std::string::npos) fn = fn.substr(0, sp);
    if (where == "?") where = fn;
    if (taken++ < 4 && brief) *brief += line + "\n";
    break;
  }
  return "crash:" + kind + ":" + where;
}

// Gives the stack below the caller, and the frames of the calls it makes, the
// same contents in every execution.
__attribute__((noinline, no_sanitize("address"))) void PaintStack(size_t n, int mode, uint64_t seed) {
  volatile char* p = static_cast<volatile char*>(__builtin_alloca(n));
  for (size_t i = 0; i < n; ++i) {
    if (mode == 4) {
      seed = seed * 6364136223846793005ull + 1442695040888963407ull;
      p[i] = static_cast<char>(seed >> 56);
    } else {
      p[i] = static_cast<char>(mode == 1 ? 0 : mode == 2 ? 0xFF : mode == 5 ? 1 : 0xA5);
    }
  }
}

ExecStatus ForkRun(Result* res, const std::function<void()>& fn, int timeout_s) {
  ExecStatus st;
  st.crashed = st.timeout = false;
  ClearResult(res);
  int fd = static_cast<int>(memfd_create("sim-stderr", 0));
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (fd >= 0) dup2(fd, 2);
    struct itimerval tv;
    memset(&tv, 0, sizeof(tv));
    tv.it_value.tv_sec = timeout_s;
    setitimer(ITIMER_REAL, &tv, nullptr);
    g_res = res;
    memset(&g_alloc, 0, sizeof(g_alloc));
    memset(&g_step, 0, sizeof(g_step));
    g_alloc.fill_mode = 3;
    PaintStack(192 * 1024, 3, 0);
    fn();
    FinishResult();
    if (res->status == 0) res->status = 1;
    fflush(stdout);
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {}
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
    st.timeout = true;
    st.crash_signature = "no-progress:wall-clock";
  } else if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0)) {
    st.crashed = true;
    std::string text;
    if (fd >= 0) {
      lseek(fd, 0, SEEK_SET);
      char buf[8192];
      ssize_t n;
      while ((n = read(fd, buf, sizeof(buf))) > 0 && text.size() < 200000) text.append(buf, n);
    }
    st.crash_signature = CrashSignature(text, nullptr);
    st.crash_text = text.substr(0, 6000);
  }
  if (fd >= 0) close(fd);
  return st;
}

// ------------------------------------------------ plan text ---------------
std::string PlanToText(const Plan& p, const std::string& comment) {
  std::string o;
  o += "simplan 1\n";
  std::istringstream in(comment);
  std::string line;
  while (std::getline(in, line)) o += "# " + line + "\n";
  o += "property " + p.property + "\n";
  o += StrF("seed %llu\n", static_cast<unsigned long long>(p.seed));
  for (auto& kv : p.cfg) o += StrF("cfg %s %lld\n", kv.first.c_str(), static_cast<long long>(kv.second));
  for (auto& op : p.ops)
    o += StrF("op %d %d %d %d %d %d %d %d %d\n", op.code, op.a[0], op.a[1], op.a[2], op.a[3],
              op.a[4], op.a[5], op.fault, op.farg);
  for (auto& q : p.sched) o += StrF("run %d %d\n", q.who, q.len);
  o += "end\n";
  return o;
}
bool PlanFromText(const std::string& text, Plan* p) {
  std::istringstream in(text);
  std::string line;
  bool ended = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "property") ls >> p->property;
    else if (w == "seed") { unsigned long long s; ls >> s; p->seed = s; }
    else if (w == "cfg") { std::string k; long long v; ls >> k >> v; p->cfg[k] = v; }
    else if (w == "op") {
      Op o;
      ls >> o.code >> o.a[0] >> o.a[1] >> o.a[2] >> o.a[3] >> o.a[4] >> o.a[5] >> o.fault >> o.farg;
      p->ops.push_back(o);
    } else if (w == "run") { Quantum q; ls >> q.who >> q.len; p->sched.push_back(q); }
    else if (w == "end") ended = true;
  }
  return ended && !p->property.empty();
}

}  // namespace sim

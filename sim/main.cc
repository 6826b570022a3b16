// Campaigns over seeded runs, minimisation, replay, evidence.
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>

#include "kinds.h"
#include "props.h"

using namespace sim;

static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------ one run -----------------
struct Slots {
  std::vector<Result*> r;
  void Need(int n) { while (static_cast<int>(r.size()) < n) r.push_back(NewSharedResult()); }
};
static int g_timeout = 60;

static Outcome Execute(const PropDef& prop, const Plan& plan, Slots* slots, int first_line = 0) {
  (void)first_line;
  Outcome out;
  int n = prop.variants(plan);
  slots->Need(n);
  std::vector<Result*> rs;
  out.hash = 0;
  for (int v = 0; v < n; ++v) {
    Result* res = slots->r[v];
    rs.push_back(res);
    ExecStatus st = ForkRun(res, [&]() { prop.exec(plan, v); }, g_timeout);
    out.execs++;
    out.hash = Combine(out.hash, res->log_hash);
    out.hash = Combine(out.hash, res->steps);
    if (st.timeout) {
      out.status = 3;
      out.timeout = true;
      out.detail = StrF("wall-clock limit in %s", res->cur_what);
      return out;
    }
    if (st.crashed) {
      out.status = 2;
      out.signature = st.crash_signature + " in " + res->cur_what;
      out.detail = std::string("the process crashed in ") + res->cur_what + " (operation " +
                   std::to_string(res->cur_op % 100000) + ")\n" + st.crash_text;
      out.fail_op = res->cur_op;
      out.variant = v;
      return out;
    }
    if (res->status == 2) {
      out.status = 2;
      out.signature = res->signature;
      out.detail = res->detail;
      out.fail_op = res->fail_op;
      out.variant = v;
      return out;
    }
    if (res->status == 3) {
      out.status = 3;
      out.detail = res->detail;
      return out;
    }
  }
  prop.judge(plan, rs, &out);
  return out;
}

static Plan MakePlan(const PropDef& prop, uint64_t seed, uint64_t run, bool thorough) {
  Plan p;
  p.property = prop.id;
  uint64_t h = 0;
  for (const char* c = prop.id; *c; ++c) h = Combine(h, static_cast<unsigned char>(*c));
  p.seed = Combine(Combine(seed, h), run);
  prop.gen(&p, run, thorough);
  return p;
}

static bool NonTrivial(const std::string& id, const std::vector<Result*>& r, int n, int ops) {
  int64_t f[kMaxFaultKinds] = {0}, compared = 0, edits = 0, queries = 0, ok = 0, switches = 0;
  for (int v = 0; v < n; ++v) {
    for (int k = 0; k < kFaultKindCount; ++k) f[k] += r[v]->faults[k];
    compared += r[v]->compared;
    edits += r[v]->edits;
    queries += r[v]->queries;
    ok += r[v]->ok_answers;
    switches += r[v]->switches;
  }
  if (id == "C01") return compared > 0 && edits > 0;
  if (id == "C02") return f[kFaultExtraObservation] > 0;
  if (id == "C03" || id == "C04") return edits + f[kFaultRejectedEdit] >= 3 || ops >= 3;
  if (id == "C05") return compared > 0;
  if (id == "C06") return compared > 0 && (f[kFaultReuse] + f[kFaultSourceEdited] > 0);
  if (id == "C07") return f[kFaultAllocFail] > 0;
  if (id == "C08") return f[kFaultBadInput] > 0 && compared > 0;
  if (id == "C09") return switches > 0;
  if (id == "C10") return queries > 0;
  if (id == "C11") return compared > 0;
  if (id == "C12") return r[0]->n_entries > 0;
  if (id == "C13") return compared > 0 && f[kFaultAbandonedConfig] + f[kFaultRejectedEdit] >= 0;
  return compared > 0;
}

// ------------------------------------------------ campaign ----------------
struct WorkerStats {
  int64_t runs, execs, nontrivial, inconclusive, timeouts, steps, allocs, queries, edits, rejected;
  int64_t ok_answers, failed_answers, compared, switches, simulated_seconds, max_op_steps, ops;
  int64_t faults[kMaxFaultKinds];
  int64_t known_hits[64];
  int64_t entries;
  char max_what[128];
  char timeout_what[256];
};
struct Shared {
  volatile int64_t bad_run;     // lowest run index with an unlisted violation
  WorkerStats w[64];
};

struct Known { std::string property, pattern, text; bool fixed; };
static std::vector<Known> LoadKnown(const std::string& path) {
  std::vector<Known> k;
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    if (line.compare(0, 6, "fixed:") == 0) continue;
    // known: property=<id> signature=<signature> | <what fails>
    if (line.compare(0, 6, "known:") != 0) continue;
    size_t a = line.find("property="), b = line.find("signature="), c = line.find(" | ");
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    Known x;
    x.property = line.substr(a + 9, line.find(' ', a) - a - 9);
    x.pattern = line.substr(b + 10, c - b - 10);
    x.text = line.substr(c + 3);
    x.fixed = false;
    k.push_back(x);
  }
  return k;
}
static int KnownIndex(const std::vector<Known>& k, const std::string& id, const std::string& sig) {
  for (size_t i = 0; i < k.size() && i < 64; ++i)
    if (k[i].property == id && k[i].pattern == sig) return static_cast<int>(i);
  return -1;
}

static std::string Json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += StrF("\\u%04x", c);
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

// ------------------------------------------------ minimisation ------------
struct Minimiser {
  const PropDef& prop;
  std::string signature;
  Slots* slots;
  double deadline;
  int tries;
  bool Fails(const Plan& p) {
    ++tries;
    Outcome o = Execute(prop, p, slots);
    return o.status == 2 && o.signature == signature;
  }
  bool Time() const { return Now() < deadline; }
  template <class T> void DdMin(Plan* best, std::vector<T> Plan::*list) {
    size_t chunk = ((best->*list).size() + 1) / 2;
    while (chunk >= 1 && !(best->*list).empty() && Time()) {
      bool any = false;
      for (size_t at = 0; at < (best->*list).size() && Time();) {
        Plan t = *best;
        size_t n = std::min(chunk, (t.*list).size() - at);
        (t.*list).erase((t.*list).begin() + at, (t.*list).begin() + at + n);
        if (Fails(t)) { *best = t; any = true; } else { at += n; }
      }
      if (!any) { if (chunk == 1) break; chunk = chunk / 2; }
      else if (chunk > (best->*list).size() && !(best->*list).empty()) chunk = (best->*list).size();
    }
  }
  Plan Run(Plan best, int fail_op) {
    if (fail_op >= 0 && fail_op < 100000 && static_cast<size_t>(fail_op) + 1 < best.ops.size()) {
      Plan t = best;
      t.ops.resize(fail_op + 1);
      if (Fails(t)) best = t;
    }
    DdMin(&best, &Plan::ops);
    for (size_t i = 0; i < best.ops.size() && Time(); ++i) {
      if (best.ops[i].fault == 0) continue;
      Plan t = best;
      t.ops[i].fault = t.ops[i].farg = 0;
      if (Fails(t)) best = t;
    }
    DdMin(&best, &Plan::sched);
    static const struct { const char* k; int v; } simpler[] = {
      {"spare", 0}, {"roots", 1}, {"docseed", 0}, {"docseed", 1}, {"badinit", 0}, {"sessions", 1},
      {"nested", 0}, {"omit", -1}};
    for (auto& s : simpler) {
      auto it = best.cfg.find(s.k);
      if (it == best.cfg.end() || it->second == s.v || !Time()) continue;
      Plan t = best;
      t.cfg[s.k] = s.v;
      if (Fails(t)) best = t;
    }
    DdMin(&best, &Plan::ops);
    return best;
  }
};

static std::string ReadFile(const std::string& path) {
  std::ifstream in(path);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

// Result of a replay: prints and returns 1 if a violation shows.
static int Replay(const std::string& path, bool verbose) {
  Plan p;
  if (!PlanFromText(ReadFile(path), &p)) { fprintf(stderr, "cannot read plan %s\n", path.c_str()); return 2; }
  const PropDef* prop = FindProp(p.property);
  if (prop == nullptr) { fprintf(stderr, "unknown property %s\n", p.property.c_str()); return 2; }
  g_verbose = verbose;
  Slots slots;
  Outcome o = Execute(*prop, p, &slots);
  printf("replay property=%s status=%s hash=%016llx\n", p.property.c_str(),
         o.status == 1 ? "held" : o.status == 2 ? "violation" : "inconclusive",
         static_cast<unsigned long long>(o.hash));
  if (o.status == 2) {
    printf("signature=%s\n", o.signature.c_str());
    printf("%s\n", o.detail.c_str());
    return 1;
  }
  return o.status == 1 ? 0 : 3;
}

struct Args {
  std::string property, out, replay_dir, known, tier;
  uint64_t seed;
  int64_t runs, from;
  int workers;
  double cap, minimise;
  bool hashes;
  std::string edges;
  Args() : tier("quick"), seed(1), runs(1000), from(0), workers(8), cap(60), minimise(45), hashes(false) {}
};

static void Worker(const PropDef& prop, const Args& a, const std::vector<Known>& known, int me,
                   Shared* sh, double t_end, const std::string& tmp) {
  WorkerStats& s = sh->w[me];
  Slots slots;
  std::set<uint64_t> hist, states;
  FILE* hf = a.hashes ? fopen((tmp + ".h" + std::to_string(me)).c_str(), "w") : nullptr;
  std::string samples;
  int n_samples = 0;
  int timeouts = 0;
  for (int64_t i = a.from + me; i < a.from + a.runs; i += a.workers) {
    if (Now() > t_end) break;
    if (sh->bad_run >= 0 && i > sh->bad_run) break;
    Plan p = MakePlan(prop, a.seed, i, a.tier == "thorough");
    Outcome o = Execute(prop, p, &slots);
    s.runs++;
    s.execs += o.execs;
    s.ops += p.ops.size();
    if (hf) fprintf(hf, "%lld %d %016llx %s\n", static_cast<long long>(i), o.status,
                    static_cast<unsigned long long>(o.hash), o.signature.c_str());
    if (o.status == 3) {
      s.inconclusive++;
      if (o.timeout) { s.timeouts++; ++timeouts; snprintf(s.timeout_what, sizeof(s.timeout_what), "run %lld: %s", static_cast<long long>(i), o.detail.c_str()); }
    }
    for (int v = 0; v < o.execs; ++v) {
      Result* r = slots.r[v];
      s.steps += r->steps;
      s.allocs += r->lib_allocs;
      s.queries += r->queries;
      s.edits += r->edits;
      s.rejected += r->rejected;
      s.ok_answers += r->ok_answers;
      s.failed_answers += r->failed_answers;
      s.compared += r->compared;
      s.switches += r->switches;
      s.simulated_seconds += r->simulated_seconds;
      s.entries += r->n_entries;
      if (r->max_op_steps > s.max_op_steps) s.max_op_steps = r->max_op_steps;
      for (int k = 0; k < kFaultKindCount; ++k) s.faults[k] += r->faults[k];
      for (int k = 0; k < r->n_states; ++k) states.insert(r->states[k]);
    }
    if (o.status == 2) {
      int k = KnownIndex(known, prop.id, o.signature);
      if (k >= 0) { s.known_hits[k]++; continue; }
      if (a.hashes) continue;
      for (;;) {
        int64_t cur = sh->bad_run;
        if (cur >= 0 && cur <= i) break;
        if (__sync_bool_compare_and_swap(&sh->bad_run, cur, i)) break;
      }
      break;
    }
    if (o.status == 1 && NonTrivial(prop.id, slots.r, o.execs, static_cast<int>(p.ops.size()))) {
      s.nontrivial++;
      hist.insert(o.hash);
      if (n_samples < 1 && me < 3 && p.ops.size() < 40) {
        ++n_samples;
        samples += StrF("run %lld: ", static_cast<long long>(i)) + PlanToText(p, "").substr(0, 1500) + "\x1e";
      }
    }
    if (timeouts > 3) break;
  }
  if (hf) fclose(hf);
  FILE* f = fopen((tmp + ".w" + std::to_string(me)).c_str(), "wb");
  if (f) {
    uint64_t n = hist.size();
    fwrite(&n, 8, 1, f);
    for (uint64_t x : hist) fwrite(&x, 8, 1, f);
    n = states.size();
    fwrite(&n, 8, 1, f);
    for (uint64_t x : states) fwrite(&x, 8, 1, f);
    n = samples.size();
    fwrite(&n, 8, 1, f);
    fwrite(samples.data(), 1, n, f);
    fclose(f);
  }
}

static int Campaign(const Args& a, const char* self) {
  const PropDef* prop = FindProp(a.property);
  if (prop == nullptr) { fprintf(stderr, "unknown property %s\n", a.property.c_str()); return 2; }
  std::vector<Known> known = LoadKnown(a.known);
  double t0 = Now();
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sh->bad_run = -1;
  g_cov_map = static_cast<volatile unsigned char*>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE,
                                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string tmp = a.out + ".tmp";
  double t_end = t0 + a.cap;
  std::vector<pid_t> pids;
  fflush(stdout);
  for (int k = 0; k < a.workers; ++k) {
    pid_t pid = fork();
    if (pid == 0) {
      Worker(*prop, a, known, k, sh, t_end, tmp);
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool worker_failed = false;
  for (pid_t pid : pids) {
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) worker_failed = true;
  }
  double explore_s = Now() - t0;
  WorkerStats t;
  memset(&t, 0, sizeof(t));
  std::set<uint64_t> hist, states;
  std::vector<std::string> samples;
  for (int k = 0; k < a.workers; ++k) {
    const WorkerStats& w = sh->w[k];
#define SUM(x) t.x += w.x
    SUM(runs); SUM(execs); SUM(nontrivial); SUM(inconclusive); SUM(timeouts); SUM(steps); SUM(allocs);
    SUM(queries); SUM(edits); SUM(rejected); SUM(ok_answers); SUM(failed_answers); SUM(compared);
    SUM(switches); SUM(simulated_seconds); SUM(ops); SUM(entries);
#undef SUM
    if (w.max_op_steps > t.max_op_steps) t.max_op_steps = w.max_op_steps;
    for (int i = 0; i < kMaxFaultKinds; ++i) t.faults[i] += w.faults[i];
    for (int i = 0; i < 64; ++i) t.known_hits[i] += w.known_hits[i];
    if (w.timeout_what[0]) fprintf(stderr, "note: wall-clock limit, %s\n", w.timeout_what);
    std::string fn = tmp + ".w" + std::to_string(k);
    FILE* f = fopen(fn.c_str(), "rb");
    if (f) {
      uint64_t n = 0, x;
      if (fread(&n, 8, 1, f) == 1) for (uint64_t i = 0; i < n && fread(&x, 8, 1, f) == 1; ++i) hist.insert(x);
      if (fread(&n, 8, 1, f) == 1) for (uint64_t i = 0; i < n && fread(&x, 8, 1, f) == 1; ++i) states.insert(x);
      if (fread(&n, 8, 1, f) == 1 && n > 0 && n < (1 << 20)) {
        std::string s(n, 0);
        if (fread(&s[0], 1, n, f) == n) {
          std::istringstream in(s);
          std::string one;
          while (std::getline(in, one, '\x1e')) samples.push_back(one);
        }
      }
      fclose(f);
      unlink(fn.c_str());
    }
  }
  int violations = 0;
  int rc = 0;
  std::string violation_line;
  for (size_t k = 0; k < known.size() && k < 64; ++k)
    if (t.known_hits[k] > 0)
      printf("KNOWN-FINDING: property=%s %s (%lld simulated runs)\n", prop->id, known[k].text.c_str(),
             static_cast<long long>(t.known_hits[k]));
  int64_t bad = sh->bad_run;
  int min_tries = 0;
  if (bad >= 0) {
    Slots slots;
    Plan p = MakePlan(*prop, a.seed, bad, a.tier == "thorough");
    Outcome o = Execute(*prop, p, &slots);
    Outcome o2 = Execute(*prop, p, &slots);
    if (o.status != 2 || o2.status != 2) {
      fprintf(stderr, "ERROR: run %lld of %s is not repeatable: %d/%s/%016llx vs %d/%s/%016llx\n",
              static_cast<long long>(bad), prop->id, o.status, o.signature.c_str(),
              static_cast<unsigned long long>(o.hash), o2.status, o2.signature.c_str(),
              static_cast<unsigned long long>(o2.hash));
      rc = 4;
    } else {
      Minimiser m = {*prop, o.signature, &slots, Now() + a.minimise, 0};
      Plan best = m.Run(p, o.fail_op);
      min_tries = m.tries;
      std::string path = a.replay_dir + "/" + prop->id + StrF("-seed%llu-run%lld.plan",
          static_cast<unsigned long long>(a.seed), static_cast<long long>(bad));
      mkdir(a.replay_dir.c_str(), 0777);
      const Plan* candidates[2] = {&best, &p};
      bool shown = false;
      for (int c = 0; c < 2 && !shown; ++c) {
        Outcome b = Execute(*prop, *candidates[c], &slots);
        std::string comment = StrF("%s violated; seed %llu run %lld; %d of %d operations, %d of %d "
            "scheduler decisions left after minimisation\nsignature: ", prop->id,
            static_cast<unsigned long long>(a.seed), static_cast<long long>(bad),
            static_cast<int>(candidates[c]->ops.size()), static_cast<int>(p.ops.size()),
            static_cast<int>(candidates[c]->sched.size()), static_cast<int>(p.sched.size()));
        comment += b.signature + "\n" + b.detail.substr(0, 3000) + "\nreplay: " + self + " replay <this file>";
        { std::ofstream f(path); f << PlanToText(*candidates[c], comment); }
        // a fresh process must reproduce the very same violation
        std::string log = path + ".log";
        int pid = fork();
        if (pid == 0) {
          int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
          dup2(fd, 1);
          execl(self, self, "replay", path.c_str(), static_cast<char*>(nullptr));
          _exit(99);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::string text = ReadFile(log);
        unlink(log.c_str());
        bool again = WIFEXITED(st) && WEXITSTATUS(st) == 1 &&
            text.find("status=violation") != std::string::npos;
        bool same = again && text.find("signature=" + b.signature + "\n") != std::string::npos;
        bool exact = same &&
            text.find(StrF("hash=%016llx", static_cast<unsigned long long>(b.hash))) != std::string::npos;
        // Code that reads memory it has not written can make the values (but
        // not the plan, the schedule and the faults) differ between two
        // processes.  The complete plan is preferred to a minimised one whose
        // replay is not exact; that the replay is violated again is required.
        if (exact || (again && c == 1)) {
          if (!exact)
            printf("note: the replay is violated again, %s; the values read differ between "
                   "processes (they depend on memory contents)\n",
                   same ? "in the same way" : "in another way");
          shown = true;
          violations = 1;
          printf("%s\n%s\n", b.signature.c_str(), b.detail.substr(0, 3000).c_str());
          printf("VIOLATION property=%s replay=%s\n", prop->id, path.c_str());
          rc = 1;
        }
      }
      if (!shown) {
        fprintf(stderr, "ERROR: %s run %lld: the replay in a fresh process does not reproduce %s\n",
                prop->id, static_cast<long long>(bad), o.signature.c_str());
        rc = 4;
      }
    }
  } else if (worker_failed) {
    fprintf(stderr, "ERROR: a worker process failed\n");
    rc = 4;
  }
  double wall = Now() - t0;
  // evidence
  std::string j = "{\n";
  j += " \"property\": " + Json(prop->id) + ",\n \"tier\": " + Json(a.tier) + ",\n";
  j += StrF(" \"seed\": %llu,\n \"level\": \"%s\",\n", static_cast<unsigned long long>(a.seed),
            strcmp(prop->id, "C07") == 0 ? "fault_enumeration" : "exploration");
  j += " \"coverage\": {\n";
  j += StrF("  \"evaluations\": %lld,\n  \"distinct_nontrivial\": %lld,\n", static_cast<long long>(t.runs),
            static_cast<long long>(hist.size()));
  j += "  \"rule\": " + Json(std::string(prop->rule) + "; distinct: different complete observable histories") + ",\n";
  j += "  \"samples\": [";
  for (size_t i = 0; i < samples.size() && i < 3; ++i) j += (i ? ", " : "") + Json(samples[i]);
  if (samples.empty()) j += Json("no nontrivial run finished before the violation");
  j += "],\n";
  j += StrF("  \"runs_requested\": %lld,\n  \"first_run\": %lld,\n  \"executions\": %lld,\n  \"operations\": %lld,\n",
            static_cast<long long>(a.runs), static_cast<long long>(a.from), static_cast<long long>(t.execs),
            static_cast<long long>(t.ops));
  j += StrF("  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", t.runs * 3600.0 / std::max(explore_s, 1e-3),
            t.runs * 3600.0 / std::max(explore_s, 1e-3));
  j += StrF("  \"simulated_library_steps\": %lld,\n  \"simulated_seconds_of_modelled_time\": %lld,\n",
            static_cast<long long>(t.steps), static_cast<long long>(t.simulated_seconds));
  j += StrF("  \"library_allocations\": %lld,\n  \"answers_recorded\": %lld,\n  \"questions\": %lld,\n"
            "  \"edits\": %lld,\n  \"answers_ok\": %lld,\n  \"answers_failed\": %lld,\n"
            "  \"oracle_comparisons\": %lld,\n  \"context_switches_inside_library\": %lld,\n"
            "  \"max_library_steps_of_one_call\": %lld,\n",
            static_cast<long long>(t.allocs), static_cast<long long>(t.entries), static_cast<long long>(t.queries),
            static_cast<long long>(t.edits), static_cast<long long>(t.ok_answers), static_cast<long long>(t.failed_answers),
            static_cast<long long>(t.compared), static_cast<long long>(t.switches), static_cast<long long>(t.max_op_steps));
  j += "  \"faults_injected\": {";
  bool first = true;
  for (int k = 0; k < kFaultKindCount; ++k)
    if (t.faults[k] > 0) {
      j += StrF("%s\"%s\": %lld", first ? "" : ", ", kFaultNames[k], static_cast<long long>(t.faults[k]));
      first = false;
    }
  j += "},\n";
  j += StrF("  \"distinct_states\": %lld,\n  \"distinct_states_measure\": %s,\n", static_cast<long long>(states.size()),
            Json(a.property == "C09" ? "distinct pairs of consecutive preemption points (library edges)" :
                 "distinct (abstract configuration, question) pairs").c_str());
  j += StrF("  \"library_edges_reached\": %lld,\n  \"library_edges_total\": %u,\n", static_cast<long long>(CoveredEdges()), g_cov_size);
  j += StrF("  \"inconclusive_runs\": %lld,\n  \"wall_clock_limits_hit\": %lld,\n  \"minimisation_executions\": %d,\n",
            static_cast<long long>(t.inconclusive), static_cast<long long>(t.timeouts), min_tries);
  int64_t kh = 0;
  for (int k = 0; k < 64; ++k) kh += t.known_hits[k];
  j += StrF("  \"known_finding_runs\": %lld,\n", static_cast<long long>(kh));
  j += "  \"real_components\": \"every library source file of /repo/src, compiled unchanged (AddressSanitizer, "
       "edge callbacks, container assertions)\",\n";
  j += "  \"simulated_components\": \"operator new/delete (allocator seam), the scheduler (fibers preempted at "
       "library edges), heap and stack contents, the client programs\"\n";
  j += " },\n";
  j += StrF(" \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
  { std::ofstream f(a.out); f << j; }
  if (!a.edges.empty()) DumpEdges(a.edges);
  printf("%s: %lld runs (%lld executions) in %.1f s, %lld distinct nontrivial, %lld comparisons, %lld states, "
         "%lld/%u edges, %lld inconclusive, max %lld steps per call\n", prop->id, static_cast<long long>(t.runs),
         static_cast<long long>(t.execs), explore_s, static_cast<long long>(hist.size()),
         static_cast<long long>(t.compared), static_cast<long long>(states.size()),
         static_cast<long long>(CoveredEdges()), g_cov_size, static_cast<long long>(t.inconclusive),
         static_cast<long long>(t.max_op_steps));
  if (rc == 0 && t.runs > 0 && (t.inconclusive * 2 > t.runs || hist.empty())) {
    fprintf(stderr, "ERROR: too few conclusive runs\n");
    rc = 4;
  }
  return rc;
}

int main(int argc, char** argv) {
  // one address-space layout per binary: addresses are part of the seed
  if (getenv("SIM_NO_REEXEC") == nullptr) {
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  unsetenv("SIM_NO_REEXEC");
  setvbuf(stdout, nullptr, _IOLBF, 0);
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof(self) - 1);
  self[n > 0 ? n : 0] = 0;
  InitKinds();
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc > 2) return Replay(argv[2], false);
  if (mode == "trace" && argc > 2) return Replay(argv[2], true);
  Args a;
  for (int i = 2; i < argc; ++i) {
    std::string k = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (k == "--property") a.property = v;
    else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--runs") a.runs = atoll(v.c_str());
    else if (k == "--from") a.from = atoll(v.c_str());
    else if (k == "--workers") a.workers = std::max(1, std::min(64, atoi(v.c_str())));
    else if (k == "--cap") a.cap = atof(v.c_str());
    else if (k == "--out") a.out = v;
    else if (k == "--replay-dir") a.replay_dir = v;
    else if (k == "--known") a.known = v;
    else if (k == "--tier") a.tier = v;
    else if (k == "--timeout") g_timeout = atoi(v.c_str());
    else if (k == "--minimise") a.minimise = atof(v.c_str());
    else if (k == "--edges") a.edges = v;
    else if (k == "--hashes") { a.hashes = true; continue; }
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    ++i;
  }
  if (mode == "run") return Campaign(a, self);
  if (mode == "plan") {   // prints the plan of one run
    const PropDef* prop = FindProp(a.property);
    if (prop == nullptr) return 2;
    printf("%s", PlanToText(MakePlan(*prop, a.seed, a.from, a.tier == "thorough"), "").c_str());
    return 0;
  }
  fprintf(stderr, "usage: sim run|plan --property ID --seed N ... | sim replay FILE | sim trace FILE\n");
  return 2;
}

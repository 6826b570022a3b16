// Document world: transmission lines edited by a simulated client, with an
// independent reference model and independent geometry.
#ifndef SIM_DOC_H_
#define SIM_DOC_H_

#include <memory>
#include <functional>
#include <string>
#include <vector>

#include "core.h"
#include "models/transmissionline/transmission_line.h"

namespace sim {

struct MPt { double st, el, rot; };
struct MStr { int uid; double st, rot, off, adj; int sid; std::vector<int> hw; };
struct MConn { int uid, att; };
struct MCab { int tag; std::vector<MConn> c; };
struct MDoc {
  double ox, oy, oz;
  std::vector<MPt> pts;
  std::vector<MStr> strs;
  std::vector<MCab> cabs;
  MDoc() : ox(0), oy(0), oz(0) {}
};

enum DocOp {
  D_ADDPT = 0, D_DELPT, D_MODPT, D_ADDSTR, D_DELSTR, D_MODSTR, D_ADDCAB, D_DELCAB, D_MODCAB,
  D_ORIGIN, D_COPY, D_ASSIGN, D_KILL, D_PTS_ALIGN, D_PTS_STR, D_PT_ALIGN, D_PT_STR, D_PT_ATT,
  D_HASCONN, D_INDEX, D_VALIDATE, D_SEGMENT, D_COUNT
};
extern const char* const kDocOpNames[];
inline bool IsDocEdit(int code) { return code <= D_ORIGIN; }
inline bool IsDocQuery(int code) { return code >= D_PTS_ALIGN; }

struct DocOpts {
  bool invariants;     // C03
  bool model;          // C04: reference model refinement
  bool geometry;       // C05: rebuilt line and independent geometry
  bool copies;         // C06: copy comparisons
  bool inputs;         // C11: inputs untouched
  bool extreme;        // extreme numbers (no model)
  bool validate_rules; // C13
  bool no_exceptions;  // an escaping exception is a violation
  DocOpts() { memset(this, 0, sizeof(*this)); no_exceptions = true; }
};

class DocSim {
 public:
  DocSim(uint64_t seed, const DocOpts& opts);
  ~DocSim();
  // Executes one operation; records its answer under `tag`.
  void Step(const Op& op, int tag, bool record);
  // How a library call is made (default: directly). `edit` says whether a
  // failed call must have left the document unchanged.
  std::function<void(const std::function<void()>&, bool edit)> call;
  int LiveDocs() const;
  uint64_t StateHash() const;
  // builds a valid starting document
  void Seed(int points, int structures, int cables);
  std::vector<double> DumpReal(int d) const;
  int failed_calls;

 private:
  struct Holder { TransmissionLine* line; MDoc model; };
  TransmissionLine* L(int d) const { return docs_[d].line; }
  int PickDoc(int pick) const;
  int OtherDoc(int pick, int d) const;
  MDoc Extract(const TransmissionLine& l) const;
  std::vector<double> Dump(const MDoc& m) const;
  LineStructure MakeStructure(const MStr& s) const;
  MStr DrawStructure(Rng* r, const MDoc& cur, int index);
  LineCable MakeCable(int d, const MCab& c, int foreign) const;
  MCab DrawCable(Rng* r, const MDoc& cur, int skip, bool want_valid, int* foreign);
  double DrawStation(Rng* r, const MDoc& cur, bool on_structure);
  double DrawRotation(Rng* r);
  void CheckVerdict(const TransmissionLine& l, bool warn, bool valid) const;
  void CheckAll(int tag, int d, const std::string& what);
  void CheckInvariants(int d, const std::string& what);
  void CheckRejected(const std::vector<double>& before, int d, const std::string& what);
  TransmissionLine* Rebuild(int d) const;
  void Ask(const TransmissionLine& l, const Op& op, Answer* a) const;
  bool Geometry(const MDoc& m, const Op& op, const Answer& a, std::string* why) const;
  void CheckGeometry(int d, const Op& op, const Answer& a, const std::string& what);

  DocOpts opts_;
  std::vector<Holder> docs_;
  mutable std::vector<std::unique_ptr<LineStructure>> foreign_;  // structures of no document
  int next_uid_;
  int next_tag_;
};

// independent model rules (return value is what the edit must report)
int ModelAddPt(MDoc* m, const MPt& p);
bool ModelDelPt(MDoc* m, int i);
int ModelModPt(MDoc* m, int i, const MPt& p);
int ModelAddStr(MDoc* m, const MStr& s);
bool ModelDelStr(MDoc* m, int i);
bool ModelModStr(MDoc* m, int i, const MStr& s);
int ModelAddCab(MDoc* m, const MCab& c, bool foreign);
bool ModelDelCab(MDoc* m, int i);
int ModelModCab(MDoc* m, int i, const MCab& c, bool foreign);

// swarm generation of document operations
void GenDocOps(Plan* p, Rng* r, int n, bool copies, int query_pct, int session);
// C04: standalone containers
void StandaloneExec(const Plan& p, int mode, bool ladder);
enum { S_ALIGN = 0, S_CONN, S_HARDWARE, S_COUNT };

}  // namespace sim
#endif

#include "doc.h"

#include <math.h>

#include <algorithm>
#include <exception>
#include <memory>
#include <new>

namespace sim {

const char* const kDocOpNames[] = {
  "AddAlignmentPoint", "DeleteAlignmentPoint", "ModifyAlignmentPoint", "AddLineStructure",
  "DeleteLineStructure", "ModifyLineStructure", "AddLineCable", "DeleteLineCable",
  "ModifyLineCable", "set_origin", "copy", "assign", "destroy", "PointsXyzAlignment",
  "PointsXyzLineStructures", "PointXyzAlignment", "PointXyzLineStructure",
  "PointXyzLineStructureAttachment", "HasConnection", "IndexLineStructure", "Validate",
  "IndexSegment"};

// ------------------------------------------------------ shared inputs -----
enum { kStructs = 4, kHards = 3 };
struct Statics {
  Structure s[kStructs];
  Hardware h[kHards];
  Cable cable;
  WeatherLoadCase wx[2];
  Statics() {
    static const int n[kStructs] = {3, 3, 1, 5};
    for (int i = 0; i < kStructs; ++i) {
      s[i].height = 100 + 7 * i;
      s[i].name = "S" + std::to_string(i);
      for (int j = 0; j < n[i]; ++j) {
        StructureAttachment a;
        a.offset_longitudinal = (j - 1) * (i + 1) * 0.5;
        a.offset_transverse = 6 * j - 5 + i;
        a.offset_vertical_top = i == 3 ? -3 * j : 3 * j;
        s[i].attachments.push_back(a);
      }
    }
    for (int i = 0; i < kHards; ++i) {
      h[i].type = i == 1 ? Hardware::HardwareType::kSuspension : Hardware::HardwareType::kDeadEnd;
      h[i].length = 5 + i; h[i].weight = 100; h[i].area_cross_section = 1;
      h[i].name = "H" + std::to_string(i);
    }
    cable.name = "C"; cable.diameter = 0.09; cable.weight_unit = 1; cable.strength_rated = 30000;
    for (int i = 0; i < 2; ++i) {
      wx[i].density_ice = 57; wx[i].thickness_ice = 0.04 * i; wx[i].pressure_wind = 8 * i;
      wx[i].temperature_cable = 60 - 60 * i; wx[i].description = "w";
    }
  }
};
static Statics& G() { static Statics* g = new Statics(); return *g; }
static int Atts(int sid) {
  return sid < 0 || sid >= kStructs ? 0 : static_cast<int>(G().s[sid].attachments.size());
}
static bool IsDead(int hw) { return hw == 0 || hw == 2; }

// ------------------------------------------------------ model rules -------
static int FindUid(const MDoc& m, int uid) {
  for (size_t i = 0; i < m.strs.size(); ++i)
    if (m.strs[i].uid == uid) return static_cast<int>(i);
  return -1;
}
static bool CabOk(const MDoc& m, const MCab& c) {
  if (c.c.size() < 2) return false;
  for (size_t k = 0; k < c.c.size(); ++k) {
    int i = FindUid(m, c.c[k].uid);
    if (i < 0) return false;
    const MStr& s = m.strs[i];
    if (c.c[k].att < 0 || c.c[k].att >= static_cast<int>(s.hw.size())) return false;
    int hw = s.hw[c.c[k].att];
    if (hw < 0) return false;
    bool end = k == 0 || k + 1 == c.c.size();
    if (end != IsDead(hw)) return false;
  }
  return true;
}
static void DropBadCabs(MDoc* m) {
  for (size_t i = 0; i < m->cabs.size();) {
    if (CabOk(*m, m->cabs[i])) ++i;
    else m->cabs.erase(m->cabs.begin() + i);
  }
}
static void DropConns(MDoc* m, int uid, int min_att) {
  for (auto& c : m->cabs)
    for (size_t k = 0; k < c.c.size();) {
      if (c.c[k].uid == uid && c.c[k].att >= min_att) c.c.erase(c.c.begin() + k);
      else ++k;
    }
}
static void DropOutside(MDoc* m) {
  for (size_t i = 0; i < m->strs.size();) {
    bool in = !m->pts.empty() && m->pts.front().st <= m->strs[i].st &&
              m->strs[i].st <= m->pts.back().st;
    if (in) { ++i; continue; }
    DropConns(m, m->strs[i].uid, -1000000);
    m->strs.erase(m->strs.begin() + i);
  }
  DropBadCabs(m);
}
int ModelAddPt(MDoc* m, const MPt& p) {
  size_t i = 0;
  while (i < m->pts.size() && m->pts[i].st < p.st) ++i;
  if (i < m->pts.size() && m->pts[i].st == p.st) return -1;
  m->pts.insert(m->pts.begin() + i, p);
  return static_cast<int>(i);
}
bool ModelDelPt(MDoc* m, int i) {
  if (i < 0 || i >= static_cast<int>(m->pts.size())) return false;
  m->pts.erase(m->pts.begin() + i);
  DropOutside(m);   // only has an effect when an end point went away
  return true;
}
int ModelModPt(MDoc* m, int i, const MPt& p) {
  if (i < 0 || i >= static_cast<int>(m->pts.size())) return -1;
  for (size_t k = 0; k < m->pts.size(); ++k)
    if (static_cast<int>(k) != i && m->pts[k].st == p.st) return -1;
  m->pts.erase(m->pts.begin() + i);
  int r = ModelAddPt(m, p);
  DropOutside(m);
  return r;
}
int ModelAddStr(MDoc* m, const MStr& s) {
  if (m->pts.empty() || s.st < m->pts.front().st || s.st > m->pts.back().st) return -1;
  size_t i = 0;
  while (i < m->strs.size() && m->strs[i].st < s.st) ++i;
  if (i < m->strs.size() && m->strs[i].st == s.st) return -1;
  m->strs.insert(m->strs.begin() + i, s);
  return static_cast<int>(i);
}
bool ModelDelStr(MDoc* m, int i) {
  if (i < 0 || i >= static_cast<int>(m->strs.size())) return false;
  DropConns(m, m->strs[i].uid, -1000000);
  m->strs.erase(m->strs.begin() + i);
  DropBadCabs(m);
  return true;
}
bool ModelModStr(MDoc* m, int i, const MStr& s) {
  if (i < 0 || i >= static_cast<int>(m->strs.size())) return false;
  if (i > 0 && s.st <= m->strs[i - 1].st) return false;
  if (i + 1 < static_cast<int>(m->strs.size()) && s.st >= m->strs[i + 1].st) return false;
  if (m->pts.empty() || s.st < m->pts.front().st || s.st > m->pts.back().st) return false;
  int uid = m->strs[i].uid;
  m->strs[i] = s;
  m->strs[i].uid = uid;
  DropConns(m, uid, static_cast<int>(s.hw.size()));
  DropBadCabs(m);
  return true;
}
static bool Used(const MDoc& m, int uid, int att) {
  for (auto& c : m.cabs)
    for (auto& k : c.c) if (k.uid == uid && k.att == att) return true;
  return false;
}
int ModelAddCab(MDoc* m, const MCab& c, bool foreign) {
  if (foreign || !CabOk(*m, c)) return -1;
  for (auto& k : c.c) if (Used(*m, k.uid, k.att)) return -1;
  auto key = [&](const MCab& x) {
    return std::make_pair(FindUid(*m, x.c[0].uid), x.c[0].att);
  };
  size_t i = 0;
  while (i < m->cabs.size() && key(m->cabs[i]) < key(c)) ++i;
  m->cabs.insert(m->cabs.begin() + i, c);
  return static_cast<int>(i);
}
bool ModelDelCab(MDoc* m, int i) {
  if (i < 0 || i >= static_cast<int>(m->cabs.size())) return false;
  m->cabs.erase(m->cabs.begin() + i);
  return true;
}
int ModelModCab(MDoc* m, int i, const MCab& c, bool foreign) {
  if (i < 0 || i >= static_cast<int>(m->cabs.size())) return -1;
  MDoc t = *m;
  t.cabs.erase(t.cabs.begin() + i);
  int r = ModelAddCab(&t, c, foreign);
  if (r >= 0) *m = t;
  return r;
}

// ------------------------------------------------------ DocSim ------------
DocSim::DocSim(uint64_t seed, const DocOpts& opts) : failed_calls(0), opts_(opts) {
  (void)seed;
  next_uid_ = 1;
  next_tag_ = 1;
  call = [](const std::function<void()>& fn, bool) { LibScope s; fn(); };
  Holder h;
  h.line = LIB(new TransmissionLine());
  {
    Point3d<double> o = h.line->origin();   // a point starts unset
    h.model.ox = o.x; h.model.oy = o.y; h.model.oz = o.z;
  }
  docs_.push_back(h);
}
DocSim::~DocSim() {
  for (auto& h : docs_) { LibScope s; delete h.line; }
}
int DocSim::LiveDocs() const { return static_cast<int>(docs_.size()); }
int DocSim::PickDoc(int pick) const {
  return static_cast<int>(static_cast<unsigned>(pick) % docs_.size());
}

LineStructure DocSim::MakeStructure(const MStr& s) const {
  LineStructure o;
  o.set_station(s.st); o.set_rotation(s.rot); o.set_offset(s.off);
  o.set_height_adjustment(s.adj);
  o.set_structure(s.sid < 0 ? nullptr : &G().s[s.sid]);
  for (size_t i = 0; i < s.hw.size(); ++i)
    if (s.hw[i] >= 0) o.AttachHardware(static_cast<int>(i), &G().h[s.hw[i]]);
  return o;
}

MDoc DocSim::Extract(const TransmissionLine& l) const {
  MDoc m;
  Point3d<double> o = l.origin();
  m.ox = o.x; m.oy = o.y; m.oz = o.z;
  for (auto& p : *l.alignment()->points()) m.pts.push_back(MPt{p.station, p.elevation, p.rotation});
  int k = 0;
  for (auto& s : *l.line_structures()) {
    MStr x;
    x.uid = k++;
    x.st = s.station(); x.rot = s.rotation(); x.off = s.offset(); x.adj = s.height_adjustment();
    x.sid = s.structure() == nullptr ? -1 : -5;
    for (int i = 0; i < kStructs; ++i) if (s.structure() == &G().s[i]) x.sid = i;
    for (auto* h : *s.hardwares()) {
      int id = h == nullptr ? -1 : -5;
      for (int i = 0; i < kHards; ++i) if (h == &G().h[i]) id = i;
      x.hw.push_back(id);
    }
    m.strs.push_back(x);
  }
  for (auto& c : *l.line_cables()) {
    MCab x;
    CableConstraint q = c.constraint();
    x.tag = static_cast<int>(q.limit) - 1000;
    bool same = q.note == "tag" + std::to_string(x.tag) && c.cable() == &G().cable &&
        q.case_weather == &G().wx[x.tag & 1] && q.type_limit ==
        CableConstraint::LimitType::kHorizontalTension &&
        c.weathercase_stretch_creep() == &G().wx[0] &&
        c.weathercase_stretch_load() == &G().wx[1] &&
        c.spacing_attachments_ruling_span().x() == 100 + x.tag;
    if (!same) x.tag = -777;
    for (auto& n : *c.connections()) {
      MConn y;
      y.uid = -1;
      y.att = n.index_attachment;
      int i = 0;
      for (auto& s : *l.line_structures()) { if (&s == n.line_structure) y.uid = i; ++i; }
      x.c.push_back(y);
    }
    m.cabs.push_back(x);
  }
  return m;
}

std::vector<double> DocSim::Dump(const MDoc& m) const {
  std::vector<double> d;
  d.push_back(m.ox); d.push_back(m.oy); d.push_back(m.oz);
  d.push_back(static_cast<double>(m.pts.size()));
  for (auto& p : m.pts) { d.push_back(p.st); d.push_back(p.el); d.push_back(p.rot); }
  d.push_back(static_cast<double>(m.strs.size()));
  for (auto& s : m.strs) {
    d.push_back(s.st); d.push_back(s.rot); d.push_back(s.off); d.push_back(s.adj);
    d.push_back(s.sid);
    d.push_back(static_cast<double>(s.hw.size()));
    for (int h : s.hw) d.push_back(h);
  }
  d.push_back(static_cast<double>(m.cabs.size()));
  for (auto& c : m.cabs) {
    d.push_back(c.tag);
    d.push_back(static_cast<double>(c.c.size()));
    for (auto& k : c.c) { d.push_back(FindUid(m, k.uid)); d.push_back(k.att); }
  }
  return d;
}
std::vector<double> DocSim::DumpReal(int d) const { return Dump(Extract(*L(d))); }

uint64_t DocSim::StateHash() const {
  uint64_t h = 17;
  for (size_t d = 0; d < docs_.size(); ++d) {
    std::vector<double> v = DumpReal(static_cast<int>(d));
    for (double x : v) { uint64_t u; memcpy(&u, &x, 8); h = Combine(h, u); }
    h = Combine(h, 99);
  }
  return h;
}

static bool SameDump(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i])) return false;
  return true;
}
static std::string ShowDoc(const MDoc& m) {
  std::string o = StrF("origin(%g %g %g) points", m.ox, m.oy, m.oz);
  for (auto& p : m.pts) o += StrF(" (%g el%g rot%g)", p.st, p.el, p.rot);
  o += " structures";
  for (auto& s : m.strs) {
    o += StrF(" (%g s%d rot%g off%g adj%g hw", s.st, s.sid, s.rot, s.off, s.adj);
    for (int h : s.hw) o += StrF("%s", h < 0 ? "-" : h == 1 ? "S" : "D");
    o += ")";
  }
  o += " cables";
  for (auto& c : m.cabs) {
    o += StrF(" #%d[", c.tag);
    for (auto& k : c.c) o += StrF(" %d:%d", FindUid(m, k.uid), k.att);
    o += " ]";
  }
  return o;
}

// ------------------------------------------------------ drawing -----------
double DocSim::DrawStation(Rng* r, const MDoc& cur, bool on_structure) {
  if (opts_.extreme && r->Chance(0.15)) {
    static const double xs[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e-300, -1, 0, 1e17};
    return xs[r->Int(9)];
  }
  double p = r->Unit();
  if (p < 0.12 && !cur.pts.empty()) return cur.pts[r->Int(static_cast<int>(cur.pts.size()))].st;
  if (p < 0.2 && !cur.strs.empty() && on_structure)
    return cur.strs[r->Int(static_cast<int>(cur.strs.size()))].st;
  if (p < 0.26 && !cur.pts.empty()) {
    // just outside or just inside the ends
    static const double d[] = {-0.5, 0.5, -0.999, 0.999, -1, 1};
    return (r->Chance(0.5) ? cur.pts.front().st : cur.pts.back().st) + d[r->Int(6)];
  }
  if (p < 0.4) return r->Int(80) * 12.5;
  return r->Int(20) * 50.0;
}
double DocSim::DrawRotation(Rng* r) {
  if (opts_.extreme && r->Chance(0.15)) {
    static const double xs[] = {NAN, INFINITY, 1e308, -1e308, 1e17, 400, -400};
    return xs[r->Int(7)];
  }
  if (r->Chance(0.25)) return 0;
  return r->Range(-24, 24) * 5;
}
MStr DocSim::DrawStructure(Rng* r, const MDoc& cur, int index) {
  MStr s;
  bool have = index >= 0 && index < static_cast<int>(cur.strs.size());
  if (have) s = cur.strs[index];
  else s.sid = -2;
  s.uid = next_uid_++;
  if (!have || r->Chance(0.6)) {
    double p = r->Unit();
    if (have && p < 0.5) {
      double lo = index > 0 ? cur.strs[index - 1].st : cur.pts.empty() ? 0 : cur.pts.front().st;
      double hi = index + 1 < static_cast<int>(cur.strs.size()) ? cur.strs[index + 1].st
                                                 : cur.pts.empty() ? 0 : cur.pts.back().st;
      s.st = lo + (hi - lo) * r->Int(9) / 8;
    } else if (!have && p < 0.6 && cur.pts.size() > 1) {
      double lo = cur.pts.front().st, hi = cur.pts.back().st;
      s.st = lo + (hi - lo) * r->Int(17) / 16;
    } else {
      s.st = DrawStation(r, cur, true);
    }
  }
  if (!have || r->Chance(0.4)) {
    s.rot = r->Chance(0.4) ? 0 : r->Range(-18, 18) * 10;
    s.off = r->Chance(0.5) ? 0 : r->Range(-10, 10);
    s.adj = r->Chance(0.5) ? 0 : r->Range(0, 10);
  }
  if (!have || r->Chance(0.5)) {
    double p = r->Unit();
    if (!have || p < 0.5) {
      static const int ids[] = {0, 0, 0, 0, 1, 1, 1, 3, 3, 2, -1};
      s.sid = ids[r->Int(11)];
    }
    int n = Atts(s.sid);
    std::vector<int> old = s.hw;
    s.hw.assign(n, -1);
    int pat = r->Int(20);
    for (int i = 0; i < n; ++i) {
      if (have && pat >= 14) {
        // keeps what was there, changes one attachment
        s.hw[i] = i < static_cast<int>(old.size()) ? old[i] : 0;
        if (i == pat % n) s.hw[i] = r->Int(4) - 1;
      } else if (pat < 7) {
        s.hw[i] = r->Chance(0.8) ? 0 : 2;
      } else if (pat < 13) {
        s.hw[i] = 1;
      } else if (pat < 17) {
        s.hw[i] = r->Int(3);
      } else {
        s.hw[i] = r->Int(4) - 1;
      }
    }
  }
  return s;
}
MCab DocSim::DrawCable(Rng* r, const MDoc& cur, int skip, bool want_valid, int* foreign) {
  MCab c;
  *foreign = -1;
  c.tag = next_tag_++ % 1000;
  int n = static_cast<int>(cur.strs.size());
  auto pick = [&](int i, bool dead, bool free) {
    std::vector<int> v;
    const MStr& s = cur.strs[i];
    for (size_t a = 0; a < s.hw.size(); ++a) {
      if (s.hw[a] < 0 || IsDead(s.hw[a]) != dead) continue;
      bool used = false;
      for (size_t k = 0; k < cur.cabs.size(); ++k) {
        if (static_cast<int>(k) == skip) continue;
        for (auto& q : cur.cabs[k].c)
          if (q.uid == s.uid && q.att == static_cast<int>(a)) used = true;
      }
      if (free && used) continue;
      v.push_back(static_cast<int>(a));
    }
    return v.empty() ? -1 : v[r->Int(static_cast<int>(v.size()))];
  };
  int trouble = want_valid ? -1 : r->Int(8);
  bool free = trouble != 3;
  std::vector<int> starts;
  for (int i = 0; i < n; ++i) if (pick(i, true, free) >= 0) starts.push_back(i);
  if (starts.size() >= 2) {
    int x = r->Int(static_cast<int>(starts.size())), y = r->Int(static_cast<int>(starts.size()) - 1);
    if (y >= x) ++y;
    int i = starts[std::min(x, y)], j = starts[std::max(x, y)];
    if (r->Chance(0.5)) {            // a long section
      i = starts.front();
      if (r->Chance(0.5)) j = starts.back();
      if (i == j) j = starts.back();
    }
    c.c.push_back(MConn{cur.strs[i].uid, pick(i, true, free)});
    for (int k = i + 1; k < j; ++k) {
      int a = pick(k, false, free);
      if (a >= 0 && r->Chance(0.8)) c.c.push_back(MConn{cur.strs[k].uid, a});
    }
    c.c.push_back(MConn{cur.strs[j].uid, pick(j, true, free)});
  } else {
    for (int i = 0; i < n && c.c.size() < 3; ++i)
      if (r->Chance(0.6))
        c.c.push_back(MConn{cur.strs[i].uid, r->Int(std::max(1, static_cast<int>(cur.strs[i].hw.size())))});
  }
  if (c.c.empty()) return c;
  int k = r->Int(static_cast<int>(c.c.size()));
  switch (trouble) {
    case 0: c.c.resize(1); break;
    case 1: c.c.erase(c.c.begin()); break;
    case 2: c.c.pop_back(); break;
    case 4: *foreign = k; break;
    case 5: {
      static const int bad[] = {-1, 3, 5, 1000};
      c.c[k].att = bad[r->Int(4)];
      break;
    }
    case 6: c.c[k].att = r->Int(5); break;
    case 7: {   // dead-end in the middle, suspension at the end
      int q = r->Int(n);
      bool in = false;
      for (auto& z : c.c) if (z.uid == cur.strs[q].uid) in = true;
      if (!in) {
        MConn m{cur.strs[q].uid, r->Int(std::max(1, static_cast<int>(cur.strs[q].hw.size())))};
        size_t at = 0;
        while (at < c.c.size() && FindUid(cur, c.c[at].uid) < q) ++at;
        c.c.insert(c.c.begin() + at, m);
      }
      break;
    }
    default: break;
  }
  return c;
}


LineCable DocSim::MakeCable(int d, const MCab& c, int foreign) const {
  LineCable o;
  o.set_cable(&G().cable);
  CableConstraint k;
  k.case_weather = &G().wx[c.tag & 1];
  k.condition = c.tag % 7 == 3 ? CableConditionType::kNull : CableConditionType::kInitial;
  k.limit = 1000 + c.tag;
  k.note = "tag" + std::to_string(c.tag);
  k.type_limit = CableConstraint::LimitType::kHorizontalTension;
  o.set_constraint(k);
  o.set_spacing_attachments_ruling_span(Vector3d(100 + c.tag, 0, 0));
  o.set_weathercase_stretch_creep(&G().wx[0]);
  o.set_weathercase_stretch_load(&G().wx[1]);
  const auto* list = L(d)->line_structures();
  for (size_t i = 0; i < c.c.size(); ++i) {
    LineCableConnection n;
    // uid is the index within the extracted document
    n.line_structure = &*std::next(list->cbegin(), c.c[i].uid);
    n.index_attachment = c.c[i].att;
    if (static_cast<int>(i) == foreign) {
      const TransmissionLine* other = nullptr;
      for (size_t q = 0; q < docs_.size(); ++q)
        if (static_cast<int>(q) != d && !L(static_cast<int>(q))->line_structures()->empty())
          other = L(static_cast<int>(q));
      bool usable = false;
      if (other != nullptr) {
        // a structure with the same station in another document
        for (auto& s : *other->line_structures())
          if (s.station() == n.line_structure->station() && s.structure() != nullptr &&
              n.index_attachment < static_cast<int>(s.structure()->attachments.size())) {
            n.line_structure = &s;
            usable = true;
            break;
          }
      }
      if (!usable) {
        foreign_.emplace_back(new LineStructure(*n.line_structure));
        n.line_structure = foreign_.back().get();
      }
    }
    o.AddConnection(n);
  }
  return o;
}

// ------------------------------------------------------ checks ------------
void DocSim::CheckInvariants(int d, const std::string& what) {
  MDoc m = Extract(*L(d));
  auto bad = [&](const char* rule) {
    Violate(std::string("invariant:") + rule, what + ": " + rule + " in document " +
            ShowDoc(m).substr(0, 1500));
  };
  for (size_t i = 1; i < m.pts.size(); ++i)
    if (!(m.pts[i - 1].st < m.pts[i].st)) bad("alignment points not strictly increasing");
  for (size_t i = 1; i < m.strs.size(); ++i)
    if (!(m.strs[i - 1].st < m.strs[i].st)) bad("structures not strictly increasing");
  for (auto& s : m.strs)
    if (m.pts.empty() || s.st < m.pts.front().st || s.st > m.pts.back().st)
      bad("structure outside the alignment");
  std::vector<std::pair<int, int>> seen, keys;
  for (auto& c : m.cabs) {
    if (c.c.size() < 2) bad("line cable with fewer than two connections");
    for (size_t k = 0; k < c.c.size(); ++k) {
      if (c.c[k].uid < 0) bad("connection to a structure that is not in the line");
      if (k > 0 && c.c[k].uid <= c.c[k - 1].uid) bad("connections not in station order");
      const MStr& s = m.strs[c.c[k].uid];
      if (c.c[k].att < 0 || c.c[k].att >= static_cast<int>(s.hw.size()) || c.c[k].att >= Atts(s.sid))
        bad("connection to a missing attachment");
      int hw = s.hw[c.c[k].att];
      if (hw < 0) bad("connection to an attachment without hardware");
      bool end = k == 0 || k + 1 == c.c.size();
      if (end && !IsDead(hw)) bad("terminal connection without dead-end hardware");
      if (!end && IsDead(hw)) bad("interior connection without suspension hardware");
      std::pair<int, int> at(c.c[k].uid, c.c[k].att);
      if (std::find(seen.begin(), seen.end(), at) != seen.end())
        bad("attachment carries more than one cable");
      seen.push_back(at);
    }
    keys.push_back(std::make_pair(c.c[0].uid, c.c[0].att));
  }
  for (size_t i = 1; i < keys.size(); ++i)
    if (!(keys[i - 1] < keys[i])) bad("line cables not sorted by start structure and attachment");
}

void DocSim::CheckAll(int tag, int d, const std::string& what) {
  (void)tag;
  for (int i = 0; i < LiveDocs(); ++i) {
    if (opts_.invariants) CheckInvariants(i, what);
    if (opts_.model || opts_.copies) {
      std::vector<double> a = DumpReal(i), b = Dump(docs_[i].model);
      if (g_res) g_res->compared++;
      if (!SameDump(a, b)) {
        std::string is = ShowDoc(Extract(*L(i))), want = ShowDoc(docs_[i].model);
        Violate(i == d ? "model:" + what : "model-other-document:" + what,
                "after " + what + " document " + std::to_string(i) + " is\n  " +
                is.substr(0, 900) + "\nbut should be\n  " + want.substr(0, 900));
      }
    }
  }
}

TransmissionLine* DocSim::Rebuild(int d) const {
  TransmissionLine* n = new TransmissionLine();
  const TransmissionLine& l = *L(d);
  n->set_origin(l.origin());
  for (auto& p : *l.alignment()->points()) n->AddAlignmentPoint(p);
  for (auto& s : *l.line_structures()) n->AddLineStructure(s);
  for (auto& c : *l.line_cables()) {
    LineCable k = c;
    k.ClearConnections();
    for (auto& q : *c.connections()) {
      LineCableConnection x = q;
      int idx = 0, at = -1;
      for (auto& s : *l.line_structures()) { if (&s == q.line_structure) at = idx; ++idx; }
      if (at < 0) continue;
      x.line_structure = &*std::next(n->line_structures()->cbegin(), at);
      k.AddConnection(x);
    }
    n->AddLineCable(k);
  }
  return n;
}

static void PutP(Answer* a, const Point3d<double>& p) { a->Num(p.x); a->Num(p.y); a->Num(p.z); }

// The arguments only depend on the operation and the current document.
static void Args(const MDoc& m, const Op& op, double* st, int* i, int* j) {
  Rng r(Combine(op.a[2], 555));
  int n = static_cast<int>(m.strs.size());
  *st = 0;
  if (op.code == D_PT_ALIGN || op.code == D_SEGMENT) {
    double p = r.Unit();
    if (p < 0.3 && !m.pts.empty()) *st = m.pts[r.Int(static_cast<int>(m.pts.size()))].st;
    else if (p < 0.8 && m.pts.size() > 1)
      *st = m.pts.front().st + (m.pts.back().st - m.pts.front().st) * r.Int(33) / 32;
    else *st = r.Range(-2, 25) * 50.0 + 5;
  }
  *i = r.Int(10) == 0 ? (r.Chance(0.5) ? -1 : n) : r.Int(std::max(1, n));
  int atts = *i >= 0 && *i < n ? static_cast<int>(m.strs[*i].hw.size()) : 1;
  *j = r.Int(10) == 0 ? (r.Chance(0.5) ? -1 : atts) : r.Int(std::max(1, atts));
}

void DocSim::Ask(const TransmissionLine& l, const Op& op, Answer* a) const {
  double st;
  int i, j;
  Args(Extract(l), op, &st, &i, &j);
  switch (op.code) {
    case D_PTS_ALIGN:
    case D_PTS_STR: {
      auto* p = LIB(op.code == D_PTS_ALIGN ? l.PointsXyzAlignment() : l.PointsXyzLineStructures());
      if (p == nullptr) { a->Text("null"); break; }
      a->Num(static_cast<double>(p->size()));
      for (auto& x : *p) PutP(a, x);
      break;
    }
    case D_PT_ALIGN: PutP(a, LIB(l.PointXyzAlignment(st))); break;
    case D_PT_STR: PutP(a, LIB(l.PointXyzLineStructure(i))); break;
    case D_PT_ATT: PutP(a, LIB(l.PointXyzLineStructureAttachment(i, j))); break;
    case D_HASCONN: a->Num(LIB(l.HasConnection(i, j))); break;
    case D_INDEX: {
      const LineStructure* s = nullptr;
      int n = static_cast<int>(l.line_structures()->size());
      if (i >= 0 && i < n) s = &*std::next(l.line_structures()->cbegin(), i);
      LineStructure foreign;
      if (i < 0) s = &foreign;
      a->Num(LIB(l.IndexLineStructure(s)));
      break;
    }
    case D_VALIDATE: {
      std::list<ErrorMessage> m;
      ErrorMessage keep;
      keep.title = "KEEP";
      bool with = (op.a[3] & 1) != 0, warn = (op.a[3] & 2) != 0;
      if (with) m.push_back(keep);
      int ok = LIB(l.Validate(warn, with ? &m : nullptr));
      a->Num(ok);
      if (with) {
        a->Num(static_cast<double>(m.size()));
        for (auto& x : m) a->Text(x.title + ": " + x.description);
      }
      break;
    }
    case D_SEGMENT:
      a->Num(LIB(l.alignment()->IsValidStation(st)));
      a->Num(LIB(l.alignment()->IndexSegment(st)));
      break;
    default: break;
  }
}

static double Rad(double d) { return d * M_PI / 180; }

// Independent geometry on the current data.
bool DocSim::Geometry(const MDoc& m, const Op& op, const Answer& a, std::string* why) const {
  double st;
  int qi, qj;
  Args(m, op, &st, &qi, &qj);
  struct P { double x, y, z; };
  size_t n = m.pts.size();
  std::vector<double> head;
  std::vector<P> at;
  double h = 0;
  for (size_t i = 0; i < n; ++i) {
    if (i == 0) at.push_back(P{m.ox, m.oy, m.oz});
    else {
      double len = m.pts[i].st - m.pts[i - 1].st;
      at.push_back(P{at[i - 1].x + len * cos(Rad(h)), at[i - 1].y + len * sin(Rad(h)),
                     m.oz + m.pts[i].el - m.pts[0].el});
    }
    h += m.pts[i].rot;
    head.push_back(h);
  }
  Point3d<double> none;
  auto point = [&](double s, P* p) {
    if (n == 0 || s < m.pts.front().st || s > m.pts.back().st) {
      *p = P{none.x, none.y, none.z};
      return false;
    }
    size_t k = 0;
    while (k + 1 < n && m.pts[k + 1].st <= s) ++k;
    *p = at[k];
    if (s > m.pts[k].st) {
      double d = s - m.pts[k].st;
      double f = d / (m.pts[k + 1].st - m.pts[k].st);
      p->x += d * cos(Rad(head[k]));
      p->y += d * sin(Rad(head[k]));
      p->z += f * (m.pts[k + 1].el - m.pts[k].el);
    }
    return true;
  };
  std::vector<double> want;
  auto put = [&](const P& p) { want.push_back(p.x); want.push_back(p.y); want.push_back(p.z); };
  P p;
  int ns = static_cast<int>(m.strs.size());
  switch (op.code) {
    case D_PTS_ALIGN:
      want.push_back(static_cast<double>(n));
      for (auto& q : at) put(q);
      break;
    case D_PTS_STR:
      want.push_back(ns);
      for (auto& s : m.strs) { point(s.st, &p); put(p); }
      break;
    case D_PT_ALIGN: point(st, &p); put(p); break;
    case D_PT_STR:
      if (qi < 0 || qi >= ns) p = P{none.x, none.y, none.z};
      else point(m.strs[qi].st, &p);
      put(p);
      break;
    case D_PT_ATT: {
      if (qi < 0 || qi >= ns || qj < 0 || qj >= Atts(m.strs[qi].sid)) {
        put(P{none.x, none.y, none.z});
        break;
      }
      if (n < 2) return true;      // no direction is defined for a single point
      const MStr& s = m.strs[qi];
      point(s.st, &p);
      double dx, dy;
      size_t k = 0;
      while (k + 1 < n && m.pts[k + 1].st <= s.st) ++k;
      if (s.st == m.pts.back().st) k = n - 2;
      dx = cos(Rad(head[k]));
      dy = sin(Rad(head[k]));
      if (s.st == m.pts[k].st && k > 0 && s.st != m.pts.back().st) {
        dx += cos(Rad(head[k - 1]));
        dy += sin(Rad(head[k - 1]));
      }
      double ang = atan2(dy, dx);
      const Structure& b = G().s[s.sid];
      const StructureAttachment& t = b.attachments[qj];
      double lx = t.offset_longitudinal, ly = -t.offset_transverse;
      double rx = lx * cos(Rad(s.rot)) - ly * sin(Rad(s.rot));
      double ry = lx * sin(Rad(s.rot)) + ly * cos(Rad(s.rot)) - s.off;
      p.x += rx * cos(ang) - ry * sin(ang);
      p.y += rx * sin(ang) + ry * cos(ang);
      p.z += s.adj + b.height + t.offset_vertical_top;
      put(p);
      break;
    }
    default: return true;
  }
  bool same = want.size() == a.v.size();
  for (size_t i = 0; same && i < want.size(); ++i)
    if (!(fabs(want[i] - a.v[i]) <= 1e-5 * std::max(1.0, fabs(want[i]) * 1e-2))) same = false;
  if (same) return true;
  Answer w;
  w.v = want;
  *why = "expected " + w.Show() + " got " + a.Show() + " for " + ShowDoc(m).substr(0, 1200);
  return false;
}

void DocSim::CheckGeometry(int d, const Op& op, const Answer& a, const std::string& what) {
  TransmissionLine* f = Rebuild(d);
  Answer b;
  Ask(*f, op, &b);
  bool same = SameAnswer(a, b, 1e-9);
  delete f;
  if (g_res) g_res->compared++;
  if (!same)
    Violate("differs-from-rebuilt:" + what, what + " answered " + a.Show() +
            " but a line built from scratch with the same contents answers " + b.Show() +
            "\n  document " + ShowDoc(Extract(*L(d))).substr(0, 1200));
  std::string why;
  if (!Geometry(Extract(*L(d)), op, a, &why)) Violate("geometry:" + what, what + ": " + why);
}

// ------------------------------------------------------ execution ---------
void DocSim::Seed(int points, int structures, int cables) {
  // a regular line, built through the model so that everything is valid
  for (int i = 0; i < points; ++i) {
    MPt p{i * 900.0 / std::max(1, points - 1), 10.0 * (i % 3), i % 2 ? 30.0 : -20.0};
    AlignmentPoint q;
    q.station = p.st; q.elevation = p.el; q.rotation = p.rot;
    { LibScope s; L(0)->AddAlignmentPoint(q); }
    ModelAddPt(&docs_[0].model, p);
  }
  { LibScope s; L(0)->set_origin(Point3d<double>(10, 20, 30)); }
  docs_[0].model.ox = 10; docs_[0].model.oy = 20; docs_[0].model.oz = 30;
  for (int i = 0; i < structures; ++i) {
    MStr s;
    s.uid = next_uid_++;
    s.st = i * 900.0 / std::max(1, structures - 1);
    s.rot = 0; s.off = 0; s.adj = i % 3; s.sid = i % 2 ? 1 : 0;
    bool dead = i == 0 || i + 1 == structures || (cables > 2 && i == structures / 2);
    s.hw.assign(3, dead ? 0 : 1);
    { LibScope q; L(0)->AddLineStructure(MakeStructure(s)); }
    ModelAddStr(&docs_[0].model, s);
  }
  for (int i = 0; i < cables; ++i) {
    Rng r(Combine(i, 31337));
    MDoc cur = Extract(*L(0));
    int foreign;
    MCab c = DrawCable(&r, cur, -1, true, &foreign);
    { LibScope q; L(0)->AddLineCable(MakeCable(0, c, -1)); }
    for (auto& k : c.c) if (k.uid >= 0) k.uid = docs_[0].model.strs[k.uid].uid;
    ModelAddCab(&docs_[0].model, c, false);
  }
}

void DocSim::Step(const Op& op, int tag, bool record) {
  int d = PickDoc(op.a[0]);
  std::string what = std::string("TransmissionLine::") + kDocOpNames[op.code];
  Progress(tag, what);
  foreign_.clear();
  Rng r(Combine(op.a[1] * 1000003LL + op.a[2], 8080 + op.code));
  MDoc cur = Extract(*L(d));
  // the model is addressed by index within the current document
  MDoc& model = docs_[d].model;
  auto model_uid = [&](int index) {
    return index >= 0 && index < static_cast<int>(model.strs.size()) ? model.strs[index].uid : -1;
  };
  bool use_model = opts_.model || opts_.copies;
  Answer a;
  int np = static_cast<int>(cur.pts.size()), ns = static_cast<int>(cur.strs.size());
  int nc = static_cast<int>(cur.cabs.size());
  auto index = [&](int n) { return r.Int(12) == 0 ? (r.Chance(0.5) ? -1 : n) : r.Int(std::max(1, n)); };
  std::vector<double> before = DumpReal(d);
  int64_t fired = g_alloc.fired;
  (void)fired;
  double got = 0, want = 0;
  MDoc next = model;
  bool is_edit = IsDocEdit(op.code), has_result = is_edit && op.code != D_ORIGIN;
  std::function<void()> run;

  AlignmentPoint pt;
  LineStructure str;
  LineCable cab;
  switch (op.code) {
    case D_ADDPT: case D_MODPT: {
      int i = index(np);
      MPt p{DrawStation(&r, cur, false), r.Range(0, 20) * 5.0, DrawRotation(&r)};
      if (op.code == D_MODPT && i >= 0 && i < np) {
        if (r.Chance(0.4)) p.st = cur.pts[i].st;
        else if (r.Chance(0.5)) {
          double lo = i > 0 ? cur.pts[i - 1].st : cur.pts[0].st - 100;
          double hi = i + 1 < np ? cur.pts[i + 1].st : cur.pts[np - 1].st + 100;
          p.st = lo + (hi - lo) * r.Range(1, 7) / 8;
        }
      }
      pt.station = p.st; pt.elevation = p.el; pt.rotation = p.rot;
      if (op.code == D_ADDPT) {
        run = [&, d]() { got = L(d)->AddAlignmentPoint(pt); };
        want = ModelAddPt(&next, p);
      } else {
        run = [&, d, i]() { got = L(d)->ModifyAlignmentPoint(i, pt); };
        want = ModelModPt(&next, i, p);
      }
      break;
    }
    case D_DELPT: {
      int i = index(np);
      if (r.Chance(0.6) && np > 2) i = r.Range(1, np - 2 < 1 ? 1 : np - 2);
      run = [&, d, i]() { got = L(d)->DeleteAlignmentPoint(i); };
      want = ModelDelPt(&next, i);
      break;
    }
    case D_ADDSTR: {
      MStr s = DrawStructure(&r, cur, -1);
      str = MakeStructure(s);
      run = [&, d]() { got = L(d)->AddLineStructure(str); };
      want = ModelAddStr(&next, s);
      break;
    }
    case D_MODSTR: {
      int i = index(ns);
      MStr s = DrawStructure(&r, cur, i);
      str = MakeStructure(s);
      run = [&, d, i]() { got = L(d)->ModifyLineStructure(i, str); };
      want = ModelModStr(&next, i, s);
      break;
    }
    case D_DELSTR: {
      int i = index(ns);
      run = [&, d, i]() { got = L(d)->DeleteLineStructure(i); };
      want = ModelDelStr(&next, i);
      break;
    }
    case D_ADDCAB: case D_MODCAB: {
      int i = op.code == D_MODCAB ? index(nc) : -1;
      int foreign = -1;
      MCab c = DrawCable(&r, cur, i, r.Chance(0.7), &foreign);
      cab = MakeCable(d, c, foreign);
      // a client may hand a connection list that the cable itself rejected
      MCab mc = c;
      for (auto& k : mc.c) k.uid = model_uid(k.uid);
      if (op.code == D_ADDCAB) {
        run = [&, d]() { got = L(d)->AddLineCable(cab); };
        want = ModelAddCab(&next, mc, foreign >= 0);
      } else {
        run = [&, d, i]() { got = L(d)->ModifyLineCable(i, cab); };
        want = ModelModCab(&next, i, mc, foreign >= 0);
      }
      break;
    }
    case D_DELCAB: {
      int i = index(nc);
      run = [&, d, i]() { got = L(d)->DeleteLineCable(i); };
      want = ModelDelCab(&next, i);
      break;
    }
    case D_ORIGIN: {
      double x = r.Range(-20, 20) * 10, y = r.Range(-20, 20) * 10, z = r.Range(-5, 20) * 10;
      run = [&, d, x, y, z]() { L(d)->set_origin(Point3d<double>(x, y, z)); };
      next.ox = x; next.oy = y; next.oz = z;
      break;
    }
    case D_COPY: case D_ASSIGN: {
      if (op.code == D_COPY && LiveDocs() < 3) {
        TransmissionLine* n = nullptr;
        call([&]() { n = new TransmissionLine(*L(d)); }, false);
        if (n == nullptr) return;
        Holder h;
        h.line = n;
        h.model = docs_[d].model;
        docs_.push_back(h);
      } else {
        int t = PickDoc(op.a[4]);
        std::vector<double> old = DumpReal(t);
        bool done = false;
        call([&]() { *L(t) = *L(d); done = true; }, true);
        if (!done) { CheckRejected(old, t, what + " out of memory"); return; }
        if (t == d) CountFault(kFaultReuse);
        docs_[t].model = MDoc(docs_[d].model);
      }
      CountFault(kFaultReuse);
      CheckAll(tag, d, what);
      if (record) Record(tag, a);
      State(StateHash());
      return;
    }
    case D_KILL: {
      if (LiveDocs() < 2) return;
      { LibScope s; delete docs_[d].line; }
      docs_.erase(docs_.begin() + d);
      CountFault(kFaultSourceDestroyed);
      CheckAll(tag, -1, what);
      return;
    }
    default: break;
  }
  if (is_edit) {
    bool done = false;
    try {
      call([&]() { run(); done = true; }, true);
    } catch (const std::exception& x) {
      if (opts_.no_exceptions)
        Violate("exception:" + what, what + " let an exception escape: " + x.what() +
                " on " + ShowDoc(cur).substr(0, 1200));
      a.Text(std::string("EXC:") + x.what());
      done = true;
    }
    if (!done) { CheckRejected(before, d, what + " out of memory"); return; }
    if (g_res) {
      g_res->edits++;
      if (has_result && (got < 0 || (got == 0 && (op.code == D_DELPT || op.code == D_DELSTR ||
          op.code == D_DELCAB || op.code == D_MODSTR)))) {
        g_res->rejected++;
        CountFault(kFaultRejectedEdit);
      } else if (next.cabs.size() + next.strs.size() + 1 < model.cabs.size() + model.strs.size() +
                 (op.code == D_DELSTR || op.code == D_DELCAB ? 0 : 1) && use_model) {
        CountFault(kFaultCascade);
      }
    }
    if (use_model) {
      if (has_result && got != want)
        Violate("result:" + what, StrF("%s reported %g but the document rules give %g; document "
                "before: %s", what.c_str(), got, want, ShowDoc(cur).substr(0, 1200).c_str()));
      docs_[d].model = next;
    }
    a.Num(got);
    std::vector<double> after = DumpReal(d);
    for (double x : after) a.Num(x);
    CheckAll(tag, d, what);
  } else {
    try {
      bool done = false;
      call([&]() { a = Answer(); Ask(*L(d), op, &a); done = true; }, false);
      if (!done) return;
    } catch (const std::exception& x) {
      if (opts_.no_exceptions)
        Violate("exception:" + what, what + " let an exception escape: " + x.what() +
                " on " + ShowDoc(cur).substr(0, 1200));
      a.v.clear();
      a.s = std::string("EXC:") + x.what();
    }
    if (g_res) { g_res->queries++; (a.Failed() ? g_res->failed_answers : g_res->ok_answers)++; }
    if (opts_.geometry && op.code != D_VALIDATE && op.code != D_INDEX && op.code != D_SEGMENT &&
        op.code != D_HASCONN)
      CheckGeometry(d, op, a, what);
    else if ((opts_.geometry || opts_.copies) && a.s.compare(0, 4, "EXC:") != 0) {
      TransmissionLine* f = Rebuild(d);
      Answer b;
      Ask(*f, op, &b);
      bool same = SameAnswer(a, b, 1e-9);
      delete f;
      if (!same && (op.code != D_VALIDATE || opts_.copies))
        Violate("differs-from-rebuilt:" + what, what + " answered " + a.Show() +
                " but a line built from scratch with the same contents answers " + b.Show());
    }
    if (opts_.validate_rules && op.code == D_VALIDATE) {
      Op o2 = op;
      o2.a[3] ^= 1;
      Answer b;
      Ask(*L(d), o2, &b);
      if (a.v.empty() || b.v.empty() || a.v[0] != b.v[0])
        Violate("verdict-depends-on-list:TransmissionLine", "verdict differs with and without a "
                "message list: " + a.Show() + " / " + b.Show());
      const Answer& w = (op.a[3] & 1) ? a : b;
      CheckVerdict(*L(d), (op.a[3] & 2) != 0, !a.v.empty() && a.v[0] != 0);
      if (w.v.size() > 1 && w.v[0] == 0 && w.v[1] < 2)
        Violate("no-message:TransmissionLine", "negative verdict without any message");
      if (w.s.compare(0, 4, "KEEP") != 0)
        Violate("messages-lost:TransmissionLine", "a message already in the list was lost");
    }
    if (opts_.model || opts_.copies || opts_.inputs) {
      std::vector<double> after = DumpReal(d);
      if (!SameDump(before, after))
        Violate("query-changed-document:" + what, what + " changed the document");
    }
    if (op.code != D_VALIDATE && op.code != D_INDEX && (opts_.model || opts_.copies)) {
      // the model answers these itself
      if (op.code == D_HASCONN) {
        double st;
        int i, j;
        Args(Extract(*L(d)), op, &st, &i, &j);
        bool used = i >= 0 && i < ns && Used(model, model_uid(i), j);
        if (a.v.empty() || (a.v[0] != 0) != used)
          Violate("result:" + what, what + " answered " + a.Show() + StrF(" but the answer is %d", used));
      }
    }
  }
  if (record) Record(tag, a);
  State(StateHash());
}

// The verdict over a line is that over its parts, each of them on its own.
void DocSim::CheckVerdict(const TransmissionLine& l, bool warn, bool valid) const {
  std::string culprit;
  const AlignmentPoint* prev = nullptr;
  for (auto& p : *l.alignment()->points()) {
    if (p.elevation < 0 || !(fabs(p.rotation) <= 360) || p.station < 0)
      culprit += StrF("alignment point (%g %g %g); ", p.station, p.elevation, p.rotation);
    if (prev != nullptr && p.station < prev->station) culprit += "order of the alignment points; ";
    prev = &p;
  }
  for (auto& s : *l.line_structures()) {
    bool ok = LIB(s.Validate(warn, nullptr));
    if (!ok || s.height_adjustment() < 0 || fabs(s.rotation()) > 360 || s.station() < 0)
      culprit += StrF("line structure at %g; ", s.station());
  }
  for (auto& c : *l.line_cables()) {
    bool ok = LIB(c.Validate(warn, nullptr));
    if (!ok || c.constraint().condition == CableConditionType::kNull) culprit += "line cable; ";
  }
  std::list<ErrorMessage> m;
  LIB(l.Validate(warn, &m));
  bool unsolved = false;
  std::string text;
  for (auto& x : m) {
    if (x.description.find("rror updating") != std::string::npos) unsolved = true;
    if (x.title == "LINE CABLE" && x.description.find("onnection") != std::string::npos) continue;
    text += x.title + ": " + x.description + "; ";
  }
  if (g_res) { g_res->compared++; (valid ? g_res->ok_answers : g_res->failed_answers)++; }
  if (valid && !culprit.empty())
    Violate("valid-with-invalid-input:TransmissionLine", "declared valid although invalid: " + culprit);
  if (valid && !text.empty())
    Violate("message-but-valid:TransmissionLine", "declared valid with an error message: " + text);
  if (!valid && culprit.empty() && !unsolved)
    Violate("invalid-without-cause:TransmissionLine", "declared invalid although every part is "
            "valid: " + text);
}

void DocSim::CheckRejected(const std::vector<double>& before, int d, const std::string& what) {
  ++failed_calls;
  if (!SameDump(before, DumpReal(d)))
    Violate("failed-edit-changed-document:" + what,
            what + ": the failed edit left the document changed: " +
            ShowDoc(Extract(*L(d))).substr(0, 1500));
}

// ------------------------------------------------------ generation --------
void GenDocOps(Plan* p, Rng* r, int n, bool copies, int query_pct, int session) {
  // swarm: each run has its own mix of operations
  int w[D_COUNT];
  static const int base[] = {6, 4, 6, 10, 4, 10, 12, 3, 6, 3, 3, 3, 1, 3, 3, 3, 3, 6, 3, 1, 2, 1};
  for (int i = 0; i < D_COUNT; ++i) w[i] = base[i] * (r->Int(4) == 0 ? 0 : r->Range(1, 3));
  if (!copies) w[D_COPY] = w[D_ASSIGN] = w[D_KILL] = 0;
  w[D_ADDCAB] += 2;
  w[D_ADDSTR] += 2;
  w[D_ADDPT] += 1;
  int edit = 0, query = 0;
  for (int i = 0; i < D_COUNT; ++i) (IsDocQuery(i) ? query : edit) += w[i];
  if (query == 0) { w[D_PT_ATT] = 1; query = 1; }
  for (int k = 0; k < n; ++k) {
    Op op;
    bool q = r->Int(100) < query_pct;
    int x = r->Int(q ? query : edit);
    for (int i = 0; i < D_COUNT; ++i) {
      if (IsDocQuery(i) != q) continue;
      x -= w[i];
      if (x < 0) { op.code = i; break; }
    }
    op.a[0] = r->Int(6);
    op.a[1] = r->Int(1 << 20);
    op.a[2] = r->Int(1 << 20);
    op.a[3] = r->Int(4);
    op.a[4] = r->Int(6);
    op.a[5] = session;
    p->ops.push_back(op);
  }
}

// ------------------------------------------------------ standalone --------
// op.code: 0 add, 1 modify, 2 delete, 3 query; standalone containers.
static void Fail(const std::string& what, const std::string& detail) {
  Violate("model:" + what, what + ": " + detail);
}

// Runs fn with allocation failures climbing from the first allocation on.
static void Climb(bool ladder, const std::function<void()>& fn, const std::function<void()>& failed) {
  if (!ladder) { LibScope s; fn(); return; }
  for (int64_t k = 1; k < 4000; ++k) {
    g_alloc.count = 0;
    g_alloc.fail_at = k;
    int64_t fired = g_alloc.fired;
    try {
      LibScope s;
      fn();
    } catch (const std::bad_alloc&) {
      g_alloc.fail_at = 0;
      if (g_alloc.fired == fired) throw;
      CountFault(kFaultAllocFail);
      failed();
      continue;
    }
    g_alloc.fail_at = 0;
    return;
  }
}

void StandaloneExec(const Plan& p, int mode, bool ladder) {
  auto draw_station = [](Rng* r, const std::vector<double>& have) {
    if (!have.empty() && r->Chance(0.2)) return have[r->Int(static_cast<int>(have.size()))];
    return r->Int(30) * 25.0;
  };
  auto index = [](Rng* r, int n) {
    return r->Int(8) == 0 ? (r->Chance(0.5) ? -1 : n) : r->Int(std::max(1, n));
  };
  if (mode == S_ALIGN) {
    Alignment* real = LIB(new Alignment());
    MDoc m;
    for (size_t k = 0; k < p.ops.size(); ++k) {
      const Op& op = p.ops[k];
      Rng r(Combine(op.a[1], op.a[2]));
      static const char* names[] = {"Alignment::AddPoint", "Alignment::ModifyPoint",
                                    "Alignment::DeletePoint", "Alignment::IndexSegment"};
      int code = op.code & 3;
      Progress(static_cast<int>(k), names[code]);
      std::vector<double> have;
      for (auto& x : m.pts) have.push_back(x.st);
      int i = index(&r, static_cast<int>(m.pts.size()));
      MPt q{draw_station(&r, have), r.Range(0, 9) * 1.0, r.Range(-9, 9) * 10.0};
      if (code == 1 && r.Chance(0.3) && i >= 0 && i < static_cast<int>(m.pts.size()))
        q.st = m.pts[i].st;
      AlignmentPoint pt;
      pt.station = q.st; pt.elevation = q.el; pt.rotation = q.rot;
      double got = 0, want = 0;
      MDoc next = m;
      std::function<void()> fn;
      auto check = [&](const MDoc& mm, const char* when) {
        std::vector<MPt> is;
        for (auto& x : *real->points()) is.push_back(MPt{x.station, x.elevation, x.rotation});
        bool same = is.size() == mm.pts.size();
        for (size_t j = 0; same && j < is.size(); ++j)
          same = is[j].st == mm.pts[j].st && is[j].el == mm.pts[j].el && is[j].rot == mm.pts[j].rot;
        if (!same) Fail(names[code], std::string("the points differ from the model ") + when);
      };
      if (code == 0) { fn = [&]() { got = real->AddPoint(pt); }; want = ModelAddPt(&next, q); }
      else if (code == 1) { fn = [&]() { got = real->ModifyPoint(i, pt); }; want = ModelModPt(&next, i, q); }
      else if (code == 2) { fn = [&]() { got = real->DeletePoint(i); }; want = ModelDelPt(&next, i); }
      else {
        fn = [&]() { got = real->IndexSegment(q.st) + 1000.0 * real->IsValidStation(q.st); };
        want = -1;
        if (!m.pts.empty() && q.st >= m.pts.front().st && q.st <= m.pts.back().st) {
          int s = 0;
          while (s + 2 < static_cast<int>(m.pts.size()) && m.pts[s + 1].st < q.st) ++s;
          want = s + 1000;
        }
      }
      Climb(ladder, fn, [&]() { check(m, "after a failed call"); });
      if (g_res) { g_res->edits++; g_res->compared++; if (got < 0) CountFault(kFaultRejectedEdit); }
      if (got != want) Fail(names[code], StrF("reported %g, the rules give %g", got, want));
      m = next;
      check(m, "after the call");
      Answer a;
      a.Num(got);
      Record(static_cast<int>(k), a);
      uint64_t h = 3;
      for (auto& x : m.pts) h = Combine(h, static_cast<uint64_t>(x.st * 8 + 1e6));
      State(h);
    }
    LibScope s;
    delete real;
  } else if (mode == S_CONN) {
    // connection list of a line cable, structures of different stations
    std::vector<LineStructure> str(10);
    for (int i = 0; i < 10; ++i) {
      str[i].set_station((i / 2) * 100.0 + (i == 9 ? 50 : 0));   // pairs share a station
      str[i].set_structure(&G().s[0]);
      for (int j = 0; j < 3; ++j) str[i].AttachHardware(j, &G().h[(i + j) % 2]);
    }
    LineCable* real = LIB(new LineCable());
    std::vector<MConn> m;    // uid: index into str
    auto station = [&](int u) { return (u / 2) * 100.0 + (u == 9 ? 50 : 0); };
    auto add = [&](std::vector<MConn>* v, MConn c) {
      if (c.uid < 0) return -1;
      size_t i = 0;
      while (i < v->size() && station((*v)[i].uid) < station(c.uid)) ++i;
      if (i < v->size() && station((*v)[i].uid) == station(c.uid)) return -1;
      v->insert(v->begin() + i, c);
      return static_cast<int>(i);
    };
    for (size_t k = 0; k < p.ops.size(); ++k) {
      const Op& op = p.ops[k];
      Rng r(Combine(op.a[1], op.a[2]));
      static const char* names[] = {"LineCable::AddConnection", "LineCable::ModifyConnection",
                                    "LineCable::DeleteConnection", "LineCable::ValidateConnections"};
      int code = op.code & 3;
      Progress(static_cast<int>(k), names[code]);
      int i = index(&r, static_cast<int>(m.size()));
      MConn c{r.Int(11) - 1, r.Int(8) == 0 ? (r.Chance(0.5) ? -1 : 9) : r.Int(3)};
      if (code == 1 && r.Chance(0.3) && i >= 0 && i < static_cast<int>(m.size())) c.uid = m[i].uid;
      LineCableConnection q;
      q.line_structure = c.uid < 0 ? nullptr : &str[c.uid];
      q.index_attachment = c.att;
      std::vector<MConn> next = m;
      double got = 0, want = 0;
      std::function<void()> fn;
      auto check = [&](const std::vector<MConn>& mm, const char* when) {
        bool same = real->connections()->size() == mm.size();
        size_t j = 0;
        for (auto& x : *real->connections()) {
          if (!same) break;
          same = x.line_structure == &str[mm[j].uid] && x.index_attachment == mm[j].att;
          ++j;
        }
        if (!same) Fail(names[code], std::string("the connections differ from the model ") + when);
      };
      if (code == 0 || (code == 3 && r.Chance(0.3))) {
        code = 0;
        fn = [&]() { got = real->AddConnection(q); };
        want = add(&next, c);
      } else if (code == 1) {
        fn = [&]() { got = real->ModifyConnection(i, q); };
        if (i < 0 || i >= static_cast<int>(m.size())) want = -1;
        else {
          next.erase(next.begin() + i);
          want = add(&next, c);
          if (want < 0) next = m;
        }
      } else if (code == 2) {
        if (r.Int(30) == 0) {
          fn = [&]() { real->ClearConnections(); got = 1; };
          next.clear();
          want = 1;
        } else {
          fn = [&]() { got = real->DeleteConnection(i); };
          want = i >= 0 && i < static_cast<int>(m.size());
          if (want != 0) next.erase(next.begin() + i);
        }
      } else {
        std::list<ErrorMessage> msgs;
        fn = [&]() { got = real->ValidateConnections(true, nullptr); };
        want = m.size() >= 2;
        for (size_t j = 0; j < m.size(); ++j) {
          bool end = j == 0 || j + 1 == m.size();
          if (m[j].att < 0 || m[j].att > 2) want = 0;
          else if (end != IsDead((m[j].uid + m[j].att) % 2)) want = 0;
        }
      }
      Climb(ladder, fn, [&]() { check(m, "after a failed call"); });
      if (g_res) { g_res->edits++; g_res->compared++; if (got < 0) CountFault(kFaultRejectedEdit); }
      if (got != want) Fail(names[code], StrF("reported %g, the rules give %g", got, want));
      m = next;
      check(m, "after the call");
      Answer a;
      a.Num(got);
      Record(static_cast<int>(k), a);
      uint64_t h = 5;
      for (auto& x : m) h = Combine(h, x.uid * 16 + x.att + 1);
      State(h);
    }
    LibScope s;
    delete real;
  } else {
    LineStructure* real = LIB(new LineStructure());
    int sid = -1;
    std::vector<int> hw;
    for (size_t k = 0; k < p.ops.size(); ++k) {
      const Op& op = p.ops[k];
      Rng r(Combine(op.a[1], op.a[2]));
      static const char* names[] = {"LineStructure::set_structure", "LineStructure::AttachHardware",
                                    "LineStructure::DetachHardware", "LineStructure::AttachHardware"};
      int code = op.code & 3;
      Progress(static_cast<int>(k), names[code]);
      int i = index(&r, static_cast<int>(hw.size()));
      int x = r.Int(4) - 1;
      int nsid = r.Int(5) - 1;
      int nsid_old = sid;
      std::vector<int> next = hw;
      std::function<void()> fn;
      auto check = [&](const std::vector<int>& want, int wsid, const char* when) {
        bool same = real->hardwares()->size() == want.size() &&
                    real->structure() == (wsid < 0 ? nullptr : &G().s[wsid]);
        for (size_t j = 0; same && j < want.size(); ++j)
          same = real->hardwares()->at(j) == (want[j] < 0 ? nullptr : &G().h[want[j]]);
        if (!same) Fail(names[code], std::string("the hardware differs from the model ") + when);
      };
      if (code == 0) {
        fn = [&]() { real->set_structure(nsid < 0 ? nullptr : &G().s[nsid]); };
        next.resize(Atts(nsid), -1);
        sid = nsid;
      } else if (code == 2) {
        fn = [&]() { real->DetachHardware(i); };
        if (i >= 0 && i < static_cast<int>(hw.size())) next[i] = -1;
      } else {
        fn = [&]() { real->AttachHardware(i, x < 0 ? nullptr : &G().h[x]); };
        if (i >= 0 && i < static_cast<int>(hw.size())) next[i] = x;
      }
      // a failed set_structure may or may not have taken the structure: only
      // the retried call is checked for it
      Climb(ladder, fn, [&]() { if (code != 0) check(hw, nsid_old, "after a failed call"); });
      if (g_res) { g_res->edits++; g_res->compared++; }
      hw = next;
      check(hw, sid, "after the call");
      Answer a;
      a.Num(static_cast<double>(hw.size()));
      Record(static_cast<int>(k), a);
      uint64_t h = 7 + sid;
      for (int y : hw) h = Combine(h, y + 2);
      State(h);
    }
    LibScope s;
    delete real;
  }
}

}  // namespace sim

// variant=asan uses=ops,ser,jobs,solver
// The same operation with the same failure again and again. Oracle: what the
// process holds (heap bytes, open files) after each repetition.
#include <fcntl.h>
#include <unistd.h>
#include <cpl_error.h>
#include <cerrno>
#include <clocale>
#include <functional>
#include "jobs.h"
#include "fault.h"
#include "solver.h"
const char* const kProperty = "C14";
using sim::OPS;
using sim::FAULT;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {
constexpr int kReps = 6;
void quiet(CPLErr, CPLErrorNum, const char*) {}
bool any(const Op& o) { return !(o.flags & kFile); }
bool proj(const Op& o) { return !(o.flags & kFile) && (o.flags & kProj); }

size_t openFiles() {
  size_t n = 0;
  for (int i = 0; i < 256; ++i) if (::fcntl(i, F_GETFD) != -1) ++n;
  return n;
}

// ---- files
std::string ringText(const F2CCell& c) {
  std::string rings;
  for (auto&& g : c) {
    std::string t;
    for (auto&& q : g) t += (t.empty() ? "[" : ",[") + ser::num(q.getX()) + "," + ser::num(q.getY()) + "]";
    rings += (rings.empty() ? "[" : ",[") + t + "]";
  }
  return rings;
}
std::string fileText(uint32_t kind, const World& w) {
  std::string t;
  switch (kind) {
    case 0: case 1: return w.path.serializePath(12);
    case 2:
      t = "<?xml version=\"1.0\"?><P id=\"x\"><Field><geometry><gml:Polygon srsName=\"EPSG:4258\">";
      for (size_t i = 0; i < w.cell.size(); ++i) {
        const char* tag = i ? "gml:innerBoundaryIs" : "gml:outerBoundaryIs";
        t += std::string("<") + tag + "><gml:LinearRing><gml:coordinates>";
        for (auto&& q : w.cell.getGeometry(i)) t += ser::num(q.getX()) + "," + ser::num(q.getY()) + " ";
        t += std::string("</gml:coordinates></gml:LinearRing></") + tag + ">";
      }
      return t + "</gml:Polygon></geometry></Field></P>";
    case 5:
      for (auto& x : w.swaths) {
        std::string l;
        for (auto&& q : x.getPath()) l += (l.empty() ? "[" : ",[") + ser::num(q.getX()) + "," + ser::num(q.getY()) + "]";
        t += (t.empty() ? "" : ",") + ("{\"properties\":{\"width\":" + ser::num(x.getWidth()) + ",\"path_id\":" + std::to_string(x.getId()) + "},\"geometry\":{\"coordinates\":[" + l + "]}}");
      }
      return "{\"features\":[" + t + "]}";
    default:
      for (auto&& c : w.cells) t += (t.empty() ? "" : ",") + ("{\"properties\":{\"Name\":\"n\",\"crop_id\":\"k\"},\"geometry\":{\"coordinates\":[" + ringText(c) + "]}}");
      return "{\"features\":[" + t + "]}";
  }
}
void useFile(uint32_t kind, const World& w, const std::string& f) {
  switch (kind) {
    case 0: w.path.saveToFile(f, 10); break;
    case 1: { F2CPath p = w.path; p.loadFile(f); break; }
    case 2: { F2CFields v; f2c::Parser::importGml(f, v); break; }
    case 3: { F2CFields v; f2c::Parser::importJson(f, v); break; }
    case 4: f2c::Parser::importCellJson(f); break;
    case 5: f2c::Parser::importSwathsJson(f); break;
    default: f2c::Parser::importStripsJson(f); break;
  }
}
const char* kFiles[] = {"save", "load", "gml", "json", "json.cell", "json.swaths", "json.strips"};

struct Fault {
  enum Kind { NONE, ALLOC, CALLBACK, GEOS, CRS, IO, SOLVER } kind {NONE};
  uint64_t at {0}, n {1};
  uint32_t how {0};
  sim::CrsPlan crs;
  sim::IoPlan io;
  solver::Plan solver;
};
const char* kFaultName[] = {"no failure", "failing allocation", "failing callback", "failing geometry engine", "failing coordinate system", "failing file", "failing solver"};
void arm(const Fault& f) {
  switch (f.kind) {
    case Fault::ALLOC: sim::allocArm(f.at, f.n); break;
    case Fault::CALLBACK: callbackArm(f.at, f.n, f.how); break;
    case Fault::GEOS: sim::geosArm(f.at, f.n); break;
    case Fault::CRS: sim::crsArm(f.crs); break;
    case Fault::IO: sim::ioArm(f.io); break;
    default: break;
  }
}
uint64_t disarm(const Fault& f) {
  switch (f.kind) {
    case Fault::ALLOC: return sim::allocDisarm();
    case Fault::CALLBACK: return callbackDisarm();
    case Fault::GEOS: return sim::geosDisarm();
    case Fault::CRS: { sim::crsDisarm(); auto s = sim::crsStats(); return s.import_failed + s.create_failed + s.point_failed; }
    case Fault::IO: { sim::ioDisarm(); auto s = sim::ioStats(); return s.eio + s.enospc + s.open_failed + s.close_failed; }
    default: return 0;
  }
}
uint64_t pick(uint64_t total) {
  switch (sim::draw(FAULT, 6)) {
    case 0: return 1 + sim::draw(FAULT, std::min<uint64_t>(total, 8));
    case 1: return total - sim::draw(FAULT, std::min<uint64_t>(total, 8));
    default: return 1 + sim::draw(FAULT, total);
  }
}
// Repeats and watches. body() may throw.
void watch(const char* name, const Fault& f, const std::function<void()>& body) {
  size_t held[kReps], open[kReps];
  uint64_t fired = 0;
  int threw = 0;
  for (int i = 0; i < kReps; ++i) {
    if (f.kind == Fault::SOLVER) solver::set(f.solver);
    arm(f);
    try { body(); } catch (...) { ++threw; }
    fired += disarm(f);
    CPLErrorReset();
    held[i] = __sanitizer_get_current_allocated_bytes();
    open[i] = openFiles();
  }
  sim::log("%s, %s %llu: %s", name, kFaultName[f.kind], (unsigned long long)f.at, threw == kReps ? "threw" : threw ? "threw sometimes" : "returned");
  sim::sig(name); sim::sig(f.kind); sim::sig(threw);
  if (f.kind == Fault::NONE) sim::count("probe.no_failure");
  if (fired) sim::nontrivial();
  switch (f.kind) {
    case Fault::ALLOC: sim::count("fault.alloc", fired); break;
    case Fault::CALLBACK: sim::count("fault.callback", fired); break;
    case Fault::GEOS: sim::count("fault.geos", fired); break;
    case Fault::CRS: sim::count("fault.crs", fired); break;
    case Fault::IO: sim::count("fault.io", fired); break;
    case Fault::SOLVER: sim::count("fault.solver_no_solution", threw); break;
    default: break;
  }
  // What is kept once (tables of the library and of the engines) does not grow
  // with every repetition.
  bool more = true, opened = true;
  for (int i = kReps - 3; i < kReps; ++i) { more = more && held[i] > held[i - 1]; opened = opened && open[i] > open[i - 1]; }
  if (opened) sim::violation("open-files", "%s with %s: %zu more files are open after each repetition", name, kFaultName[f.kind], open[kReps - 1] - open[kReps - 2]);
  if (more) sim::violation("memory", "%s with %s (%s %llu): %zu more bytes are held after each repetition (before it %zu, %zu)", name, kFaultName[f.kind], f.n > 1 ? "from" : "at", (unsigned long long)f.at,
      held[kReps - 1] - held[kReps - 2], held[kReps - 2] - held[kReps - 3], held[kReps - 3] - held[kReps - 4]);
}

void fileRun(const sim::Params& wp) {
  sim::Params q = wp;
  World w = makeWorld(q);
  uint32_t kind = sim::draw(OPS, 7);
  std::string name = std::string("file.") + kFiles[kind], f = sim::scratchName("kept"), text = fileText(kind, w);
  sim::count(("op." + name).c_str());
  switch (sim::draw(OPS, 4)) {
    case 0: case 1: break;
    case 2: text.resize(sim::draw(OPS, text.size() + 1)); break;
    default: for (int i = 0, n = 1 + sim::draw(OPS, 3); i < n && !text.empty(); ++i) text[sim::draw(OPS, text.size())] = "x0,<\"[ }"[sim::draw(OPS, 8)];
  }
  FILE* o = fopen(f.c_str(), "w");
  if (!o || fwrite(text.data(), 1, text.size(), o) != text.size() || fclose(o)) sim::harnessError("cannot write %s", f.c_str());
  auto body = [&] { useFile(kind, w, f); };
  sim::allocCountStart();
  try { body(); } catch (...) {}
  uint64_t allocs = sim::allocCountStop();
  for (int a = 0, n = 1 + sim::draw(FAULT, 3); a < n; ++a) {
    Fault x;
    switch (sim::draw(FAULT, 4)) {
      case 0: break;
      case 1: if (allocs && kind < 3) { x.kind = Fault::ALLOC; x.at = pick(allocs); x.n = sim::draw(FAULT, 4) == 3 ? 1000000000 : 1; } break;  // nlohmann_json aborts when memory runs out
      default:
        x.kind = Fault::IO;
        switch (sim::draw(FAULT, 4)) {
          case 0: x.io.open_errno = sim::draw(FAULT, 2) ? EMFILE : EACCES; break;
          case 1: x.io.fail_close = 1; break;
          default: if (kind) x.io.fail_read_at = sim::draw(FAULT, text.size() + 1); else x.io.fail_write_at = sim::draw(FAULT, text.size() + 1);
        }
        x.io.max_chunk = sim::draw(FAULT, 3) * 7;
    }
    watch(name.c_str(), x, body);
  }
  ::unlink(f.c_str());
}
}  // namespace

void propertyRun() {
  CPLSetErrorHandler(quiet);
  sim::Params wp = sim::makeParams(160);
  if (sim::draw(OPS, 5) == 4) { fileRun(wp); return; }
  const bool crs_op = sim::draw(OPS, 6) == 5;
  const Op* op = crs_op ? drawOp(proj, 12) : drawOp(any, 12);
  sim::Params p = sim::makeParams(24);
  sim::count((std::string("op.") + op->name).c_str());
  // With the inputs and planners of before, or with new ones each time
  bool keep = sim::draw(OPS, 2);
  World w;
  Tools t;
  { sim::Params q = wp; w = makeWorld(q); }
  auto body = [&] {
    if (keep) { runOpRaw(*op, w, p, t); return; }
    sim::Params q = wp;
    World v = makeWorld(q);
    Tools u;
    runOpRaw(*op, v, p, u);
  };
  // how much can fail
  sim::allocCountStart(); callbackCountStart();
  try { body(); } catch (...) {}
  uint64_t allocs = sim::allocCountStop(), callbacks = callbackCountStop();
  sim::geosCountStart(); sim::crsArm({});
  try { body(); } catch (...) {}
  uint64_t geos = sim::geosCountStop();
  sim::crsDisarm();
  auto crs = sim::crsStats();
  for (int a = 0, n = 1 + sim::draw(FAULT, 3); a < n; ++a) {
    Fault x;
    switch (crs_op && sim::draw(FAULT, 2) ? 4 : sim::draw(FAULT, 8)) {
      case 0: break;
      case 1: if (callbacks) { x.kind = Fault::CALLBACK; x.at = pick(callbacks); x.how = sim::draw(FAULT, 5); } break;
      case 2: case 3: if (geos) { x.kind = Fault::GEOS; x.at = pick(geos); } break;
      case 4:
        if (crs.imports + crs.created + crs.points == 0) break;
        x.kind = Fault::CRS;
        switch (sim::draw(FAULT, 3)) {
          case 0: x.crs.fail_import = 1 + sim::draw(FAULT, crs.imports + 1); break;
          case 1: x.crs.fail_create = 1 + sim::draw(FAULT, crs.created + 1); break;
          default: x.crs.fail_point = sim::draw(FAULT, crs.points + 1); x.crs.fail_points = sim::draw(FAULT, 2) ? 1000000 : 1;
        }
        break;
      case 5: x.kind = Fault::SOLVER; x.solver.fail = true; break;
      default: if (allocs) { x.kind = Fault::ALLOC; x.at = pick(allocs); }
    }
    if (x.kind == Fault::ALLOC || x.kind == Fault::GEOS || x.kind == Fault::CALLBACK) x.n = sim::draw(FAULT, 4) == 3 ? 1000000000 : 1;
    watch(op->name, x, body);
    if (x.kind == Fault::SOLVER) solver::set({});
  }
}

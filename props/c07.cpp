// variant=asan uses=ser
// Saving and loading paths on a simulated disk: short and interrupted transfers,
// full disks, I/O errors, failing opens and closes, a crash in the middle of a
// save, torn and damaged files, any process locale.
#include <errno.h>
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <sstream>
#include "fault.h"
#include "locales.h"
#include "ser.h"
#include "sim.h"
const char* const kProperty = "C07";
using sim::OPS;
using sim::FAULT;

namespace {
double value() {
  double m = sim::real(OPS, -1, 1, 1000003);
  switch (sim::draw(OPS, 7)) {
    case 0: return sim::draw(OPS, 20);
    case 1: return m * 10;
    case 2: return m * 6e6;          // projected coordinates
    case 3: return m * 1e-7;
    case 4: return std::ldexp(m, static_cast<int>(sim::draw(OPS, 600)) - 300);
    case 5: return -0.1 * sim::draw(OPS, 30);
    default: return std::nextafter(sim::draw(OPS, 1000), sim::draw(OPS, 2) ? 1e9 : -1e9);
  }
}
F2CPath makePath(int n) {
  F2CPath p;
  for (int i = 0; i < n; ++i) {
    f2c::types::PathState s;
    s.point = F2CPoint(value(), value(), sim::draw(OPS, 3) == 2 ? value() : 0);
    s.angle = value(); s.len = std::fabs(value()); s.velocity = value();
    s.dir = sim::draw(OPS, 2) ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD;
    s.type = static_cast<f2c::types::PathSectionType>(1 + sim::draw(OPS, 3));
    p.addState(s);
  }
  return p;
}
bool close(double want, double got, int prec) {
  if (want == got) return true;
  if (!std::isfinite(got)) return false;
  // half a unit of the last saved digit
  double e = std::floor(std::log10(std::fabs(want)));
  return std::fabs(want - got) <= 0.5000001 * std::pow(10.0, e - (std::max(prec, 1) - 1)) + std::fabs(want) * 2.3e-16;
}
bool same(const f2c::types::PathState& a, const f2c::types::PathState& b, int prec) {
  return close(a.point.getX(), b.point.getX(), prec) && close(a.point.getY(), b.point.getY(), prec) && close(a.point.getZ(), b.point.getZ(), prec) &&
    close(a.angle, b.angle, prec) && close(a.len, b.len, prec) && close(a.velocity, b.velocity, prec) && a.dir == b.dir && a.type == b.type;
}
bool prefixOf(const F2CPath& got, const F2CPath& want, int prec) {
  if (got.size() > want.size()) return false;
  for (size_t i = 0; i < got.size(); ++i) if (!same(want[i], got[i], prec)) return false;
  return true;
}
std::string bytes(const std::string& f) {
  FILE* h = fopen(f.c_str(), "rb");
  if (!h) return "";
  std::string r; char b[4096]; size_t k;
  while ((k = fread(b, 1, sizeof b, h)) > 0) r.append(b, k);
  fclose(h);
  return r;
}
void put(const std::string& f, const std::string& t) { FILE* h = fopen(f.c_str(), "wb"); if (!h) sim::harnessError("scratch"); fwrite(t.data(), 1, t.size(), h); fclose(h); }
std::string trimmed(std::string s) { while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.pop_back(); return s; }

sim::IoPlan transfers() {
  sim::IoPlan p;
  if (sim::draw(FAULT, 2)) p.max_chunk = 1 + sim::draw(FAULT, sim::draw(FAULT, 2) ? 7 : 200);
  if (sim::draw(FAULT, 3) == 2) p.eintr_every = 2 + sim::draw(FAULT, 4);
  return p;
}
void countIo() {
  auto s = sim::ioStats();
  sim::count("fault.short_transfer", s.short_io); sim::count("fault.eintr", s.eintr); sim::count("fault.read_eio", s.eio);
  sim::count("fault.write_error", s.enospc); sim::count("fault.open_failed", s.open_failed); sim::count("fault.close_failed", s.close_failed);
  sim::count("fault.rename_failed", s.rename_failed); sim::count("fault.sync_failed", s.sync_failed);
  sim::count("probe.file_bytes", s.bytes);
}
bool save(const F2CPath& p, const std::string& f, int prec, const sim::IoPlan& plan) {
  bool ok = true;
  sim::ioArm(plan);
  try { p.saveToFile(f, prec); } catch (const std::exception&) { ok = false; }
  sim::ioDisarm();
  countIo();
  return ok;
}
// Loads into a path that holds 0-2 states already.
bool load(F2CPath& p, const std::string& f, const sim::IoPlan& plan) {
  bool ok = true;
  F2CPath had = makePath(sim::draw(OPS, 4) == 3 ? 1 + sim::draw(OPS, 2) : 0), into = had;
  sim::ioArm(plan);
  try { into.loadFile(f); } catch (const std::exception&) { ok = false; }
  sim::ioDisarm();
  countIo();
  if (!ok && ser::s(into) != ser::s(had))
    sim::violation("partly-loaded", "a failed load changed the path it was to extend: %s", sim::diff(ser::s(had), ser::s(into)).c_str());
  p = F2CPath();
  for (size_t i = 0; i < into.size(); ++i) {
    if (i >= had.size()) p.addState(into[i]);
    else if (!same(had[i], into[i], 17)) sim::violation("partly-loaded", "loading changed state %zu that the path held before", i);
  }
  return ok;
}
}  // namespace

void propertyInit() { loadLocales(); }
void propertyRun() {
  std::string dir = sim::scratchName("c07");
  ::mkdir(dir.c_str(), 0700);
  std::string f = dir + "/path", g = dir + "/torn", h = dir + "/prefix";
  auto done = [&] { std::error_code e; std::filesystem::remove_all(dir, e); };
  int n = sim::draw(OPS, 8) == 7 ? 40 + sim::draw(OPS, 400) : sim::draw(OPS, 9);
  int prec = 1 + sim::draw(OPS, 17);
  F2CPath p = makePath(n);
  std::string before = ser::s(p);
  pickLocale();
  std::string loc = localeText();
  if (sim::draw(OPS, 2)) save(makePath(sim::draw(OPS, 20)), f, 6, {});  // an older file

  sim::log("%d states, precision %d, locale %s", n, prec, loc.c_str());
  if (!save(p, f, prec, transfers())) sim::violation("save-failed", "saving %d states failed although every write succeeded", n);
  if (localeText() != loc) sim::violation("locale", "saving changed the process locale: %s became %s", loc.c_str(), localeText().c_str());
  std::string content = bytes(f);
  if (sim::draw(OPS, 2)) pickLocale();
  loc = localeText();
  F2CPath q;
  if (!load(q, f, transfers())) sim::violation("load-failed", "loading a completely saved path of %d states failed (locale %s)", n, loc.c_str());
  if (localeText() != loc) sim::violation("locale", "loading changed the process locale");
  if (q.size() != p.size() || !prefixOf(q, p, prec))
    sim::violation("round-trip", "%zu states saved with %d digits, %zu loaded: %s", p.size(), prec, q.size(), sim::diff(before, ser::s(q)).c_str());
  if (ser::s(p) != before) sim::violation("inputs", "saving changed the path");
  sim::sig(n > 8 ? 9 : n); sim::sig(prec); sim::sig(loc);

  int rounds = 1 + sim::draw(FAULT, 4);
  for (int i = 0; i < rounds; ++i) {
    uint32_t kind = sim::draw(FAULT, 8);
    sim::sig(kind);
    switch (kind) {
      case 0: case 1: {  // the save fails
        sim::IoPlan pl = transfers();
        std::string what;
        bool must_fail = true;
        std::string to = g;
        switch (sim::draw(FAULT, 5)) {
          case 3:  // only matters to a save that does such things
            if (sim::draw(FAULT, 2)) { static const int e[] = {EACCES, EXDEV, EBUSY, ENOSPC}; pl.rename_errno = e[sim::draw(FAULT, 4)]; }
            if (sim::draw(FAULT, 2)) pl.fail_sync = 1;
            must_fail = false; what = "rename or sync";
            break;
          case 4: {  // nothing can be saved there
            uint32_t where = sim::draw(FAULT, 4);
            to = where == 0 ? dir : where == 1 ? dir + "/none/path" : where == 2 ? dir + "/" + std::string(300, 'n') : f + "/path";
            what = where == 0 ? "a directory as the target" : where == 1 ? "a missing directory" : where == 2 ? "too long a name" : "a file as directory";
            sim::count("fault.impossible_target");
            break;
          }
          case 0:
            pl.fail_write_at = sim::draw(FAULT, content.size() + 2);
            if (sim::draw(FAULT, 4) == 3) pl.fail_write_at = content.size() ? content.size() - 1 : 0;
            pl.write_errno = sim::draw(FAULT, 2) ? EIO : ENOSPC;
            must_fail = pl.fail_write_at < static_cast<int64_t>(content.size());
            what = "writing past byte " + std::to_string(pl.fail_write_at);
            break;
          case 1: pl.fail_close = 1; what = "close"; break;
          default: { static const int e[] = {EACCES, ENOSPC, EROFS, EMFILE}; pl.open_errno = e[sim::draw(FAULT, 4)]; what = "open"; }
        }
        bool ok = save(p, to, prec, pl);
        if (what == "rename or sync" && (sim::ioStats().rename_failed || sim::ioStats().sync_failed)) sim::log("a rename or sync failed");
        sim::log("save with failing %s of %zu bytes: %s", what.c_str(), content.size(), ok ? "no error" : "error");
        if (must_fail && ok) sim::violation("save-unreported", "%s failed, but the save of %zu bytes reported success", what.c_str(), content.size());
        sim::nontrivial();
        if (ok) {
          F2CPath r;
          if (!load(r, to, {}) || r.size() != p.size() || !prefixOf(r, p, prec)) sim::violation("round-trip", "a successful save is not loaded back");
        }
        break;
      }
      case 2: case 3: {  // the program dies while saving; or the file is torn
        bool crash = kind == 2;
        int64_t k = sim::draw(FAULT, content.size() + 1);
        if (crash) {
          ::unlink(g.c_str());
          try {
            sim::isolated([&] {
              sim::IoPlan pl = transfers(); pl.crash_write_at = k;
              sim::ioArm(pl);
              p.saveToFile(g, prec);
              return std::string();
            });
          } catch (const std::runtime_error&) {}
          sim::count("fault.crash_while_saving");
        } else {
          put(g, content.substr(0, k));
          sim::count("fault.torn_file");
        }
        F2CPath r;
        bool ok = load(r, g, transfers());
        std::string torn = bytes(g);
        sim::log("%s at byte %lld of %zu: %s, %zu states", crash ? "crash" : "torn", (long long)k, content.size(), ok ? "loaded" : "reported", r.size());
        sim::nontrivial();
        if (!prefixOf(r, p, prec)) sim::violation("invented", "a file torn at byte %lld gave states that were not saved: %s", (long long)k, sim::diff(before, ser::s(r)).c_str());
        if (ok && r.size() < p.size()) {
          // only a tear between two states cannot be seen
          F2CPath pre;
          for (size_t j = 0; j < r.size(); ++j) pre.addState(p[j]);
          pre.saveToFile(h, prec);
          if (trimmed(bytes(h)) != trimmed(torn))
            sim::violation("torn-unreported", "a file torn at byte %lld inside a state was loaded as %zu of %zu states without an error", (long long)k, r.size(), p.size());
        }
        break;
      }
      case 4: {  // read error
        sim::IoPlan pl = transfers();
        pl.fail_read_at = sim::draw(FAULT, content.size() + 2);
        F2CPath r;
        bool ok = load(r, f, pl);
        bool fired = sim::ioStats().eio > 0;
        sim::log("read error at byte %lld: %s", (long long)pl.fail_read_at, ok ? "loaded" : "reported");
        sim::nontrivial();
        if (fired && ok) sim::violation("read-unreported", "reading byte %lld failed, but loading reported success with %zu of %zu states", (long long)pl.fail_read_at, r.size(), p.size());
        if (!fired && !ok) sim::violation("load-failed", "loading failed without a read error");
        if (!prefixOf(r, p, prec)) sim::violation("invented", "a read error at byte %lld gave states that were not saved", (long long)pl.fail_read_at);
        break;
      }
      case 5: {  // open fails, or no file
        F2CPath r;
        bool missing = sim::draw(FAULT, 2);
        sim::IoPlan pl;
        if (!missing) { static const int e[] = {EACCES, EMFILE, EIO, ENOENT}; pl.open_errno = e[sim::draw(FAULT, 4)]; }
        bool ok = load(r, missing ? (sim::draw(FAULT, 2) ? dir + "/none" : dir) : f, pl);
        if (missing) sim::count("fault.missing_file");
        sim::nontrivial();
        if (ok) sim::violation("missing-unreported", "loading a %s file reported success", missing ? "missing" : "unreadable");
        if (r.size()) sim::violation("invented", "a missing file gave states");
        break;
      }
      case 6: {  // a byte was damaged
        if (content.empty()) break;
        std::string d = content;
        size_t k = sim::draw(FAULT, d.size());
        d[k] = sim::draw(FAULT, 2) ? '@' : '\0';
        put(g, d);
        sim::count("fault.damaged_byte");
        F2CPath r;
        bool ok = load(r, g, transfers());
        sim::nontrivial();
        if (!prefixOf(r, p, prec) || (ok && r.size() < p.size() && trimmed(d) != trimmed(content)))
          sim::violation("damaged-unreported", "damage at byte %zu: %s, %zu states", k, ok ? "success reported" : "reported", r.size());
        break;
      }
      default: {  // all is well again
        F2CPath r;
        if (!save(p, f, prec, transfers()) || !load(r, f, transfers()) || r.size() != p.size() || !prefixOf(r, p, prec))
          sim::violation("round-trip", "saving and loading again after failures does not give the path");
      }
    }
    if (content != bytes(f)) sim::violation("other-file", "another save or load changed a path saved before");
    if (ser::s(p) != before) sim::violation("inputs", "a failing save changed the path");
  }
  done();
}

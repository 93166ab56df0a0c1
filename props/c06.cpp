// variant=asan uses=ser
// Importing generated files (gml, json fields/cell/swaths/strips) from a
// simulated disk under any locale: split and failing reads, missing, torn,
// damaged and malformed files, failing allocations. Oracle: the generated
// content, and for damaged files a strict reader of the harness's own.
#include <errno.h>
#include <sys/stat.h>
#include <tinyxml2.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <nlohmann/json.hpp>
#include <sstream>
#include "fault.h"
#include "locales.h"
#include "ser.h"
#include "sim.h"
const char* const kProperty = "C06";
using sim::OPS;
using sim::FAULT;
using nlohmann::json;

namespace {
struct Pt { double x {0}, y {0}, z {0}; };
typedef std::vector<Pt> Ring;
struct Item { std::string name, crs; std::vector<Ring> rings; double width {0}; int id {0}; };
typedef std::vector<Item> Content;
enum Kind { GML, FIELDS, CELL, SWATHS, STRIPS };
const char* kKind[] = {"gml", "fields", "cell", "swaths", "strips"};

struct Malformed {};
struct Unclear {};     // readers may refuse it or take it one way

// ------------------------------------------------------------- generated files
std::string numText(double& v, bool exact = false) {
  char b[64];
  PlainNumbers plain;
  switch (exact ? 4 : sim::draw(OPS, 5)) {
    case 0: snprintf(b, sizeof b, "%.0f", v); break;
    case 1: snprintf(b, sizeof b, "%.3f", v); break;
    case 2: snprintf(b, sizeof b, "%.12f", v); break;
    case 3: snprintf(b, sizeof b, "%.6e", v); break;
    default: snprintf(b, sizeof b, "%.17g", v);
  }
  v = strtod(b, nullptr);
  return b;
}
double coord() {
  double m = sim::real(OPS, -1, 1, 1000003);
  switch (sim::draw(OPS, 5)) {
    case 0: return std::round(m * 40);
    case 1: return m * 100;
    case 2: return m * 180;
    case 3: return m * 6e6;
    default: return m * 1e-3;
  }
}
std::string word() {
  static const char* w[] = {"f", "field 1", "b913fe9d-ed9f", "", "Gewann \xc3\xa4\xc3\xb6", "a\"b", "x<y&z", "1.5", "null", "tab\there", "line\nbreak", "\xe5\x9c\xb0", "\\back", "0"};
  return w[sim::draw(OPS, 14)];
}
std::string ws() { static const char* w[] = {"", " ", "\n  ", "\t", "\r\n"}; return w[sim::draw(OPS, 5)]; }
std::string esc(const std::string& s) { return json(s).dump(-1, ' ', sim::draw(OPS, 2)); }
std::string xesc(const std::string& s) {
  std::string r;
  for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\n' ? "&#10;" : c == '\t' ? "&#9;" : std::string(1, c);
  return r;
}
Ring makeRing(bool closed, bool z) {
  Ring r;
  int n = sim::draw(OPS, 12) == 11 ? 60 + sim::draw(OPS, 400) : 3 + sim::draw(OPS, 6);
  if (sim::draw(OPS, 12) == 11) n = 1 + sim::draw(OPS, 2);   // degenerate, but the file's content
  for (int i = 0; i < n; ++i) r.push_back({coord(), coord(), z ? coord() : 0});
  if (closed) r.push_back(r[0]);
  return r;
}
std::string jsonPts(Ring& r, bool z, bool ring) {
  std::string t = "[" + ws();
  for (size_t i = 0; i < r.size(); ++i) {
    auto& p = r[i];
    bool last = ring && i + 1 == r.size();
    if (last) p = r[0];
    if (i) t += "," + ws();
    t += "[" + ws() + numText(p.x, last) + ws() + "," + ws() + numText(p.y, last) + (z ? "," + ws() + numText(p.z, last) : "") + "]";
  }
  return t + "]";
}
// Text of a file with new content.
std::string makeFile(Kind k, Content& c) {
  c.clear();
  bool z = sim::draw(OPS, 3) == 2;
  if (k == GML) {
    Item it;
    it.name = word();
    static const char* crs[] = {"EPSG:4258", "EPSG:4326", "EPSG:28992", "UTM:31N datum:WGS84", "UTM:4S datum:etrs89"};
    it.crs = crs[sim::draw(OPS, 5)];
    int holes = sim::draw(OPS, 4) == 3 ? 1 + sim::draw(OPS, 2) : 0;
    bool id = sim::draw(OPS, 5) != 4;
    if (!id) it.name = "";
    std::string t;
    if (sim::draw(OPS, 3) == 2) t += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    if (sim::draw(OPS, 4) == 3) t += "<!-- exported -->\n";
    t += std::string("<parcel xmlns:gml=\"http://www.opengis.net/gml\"") + (id ? " id=\"" + xesc(it.name) + "\"" : "") + ">" + ws() + "<Field area=\"1,5\" id=\"boundary\">" + ws() + "<geometry>" + ws();
    t += "<gml:Polygon srsName=\"" + it.crs + "\">" + ws();
    int sep = sim::draw(OPS, 4);
    for (int i = 0; i <= holes; ++i) {
      Ring r = makeRing(true, z);
      const char* tag = i ? "gml:innerBoundaryIs" : "gml:outerBoundaryIs";
      t += std::string("<") + tag + ">" + ws() + "<gml:LinearRing>" + ws() + "<gml:coordinates>" + (sim::draw(OPS, 3) == 2 ? ws() : "");
      for (size_t j = 0; j < r.size(); ++j) {
        if (j) t += sep == 3 ? (sim::draw(OPS, 2) ? "\n      " : " ") : sep == 2 ? "  " : " ";
        bool last = j + 1 == r.size();
        if (last) r[j] = r[0];
        t += numText(r[j].x, last) + "," + numText(r[j].y, last) + (z ? "," + numText(r[j].z, last) : "");
      }
      t += std::string(sim::draw(OPS, 3) == 2 ? ws() : "") + "</gml:coordinates>" + ws() + "</gml:LinearRing>" + ws() + "</" + tag + ">" + ws();
      it.rings.push_back(r);
    }
    t += "</gml:Polygon>" + ws() + "</geometry>" + ws() + "</Field>";
    if (sim::draw(OPS, 2)) t += ws() + "<Edge id=\"1\"><geometry><gml:LineString srsName=\"EPSG:4258\"><gml:coordinates>1,2 3,4</gml:coordinates></gml:LineString></geometry></Edge>";
    t += ws() + "</parcel>" + ws();
    c.push_back(it);
    return t;
  }
  std::string t = ws() + "{" + ws() + "\"type\":" + ws() + "\"FeatureCollection\"," + ws();
  if (sim::draw(OPS, 3) == 2) t += "\"crs\": {\"type\": \"name\", \"properties\": {\"name\": \"urn:ogc:def:crs:EPSG::28992\"}},";
  t += "\"features\":" + ws() + "[" + ws();
  int n = k == CELL ? 1 + sim::draw(OPS, 2) : sim::draw(OPS, 9) == 8 ? 20 : sim::draw(OPS, 5);
  for (int i = 0; i < n; ++i) {
    Item it;
    it.name = word(); it.id = sim::draw(OPS, 3) ? static_cast<int>(sim::draw(OPS, 1000)) - 20 : static_cast<int>(sim::draw(OPS, 1u << 30)); it.width = 0.1 * (1 + sim::draw(OPS, 60));
    std::string props = "\"properties\":" + ws() + "{" + ws(), geo = "\"geometry\":{" + ws(), coords;
    if (k == FIELDS) props += "\"Name\":" + ws() + esc(it.name) + ",\"Description\":\"\"";
    else if (k == SWATHS) {
      props += "\"width\":" + numText(it.width, it.width < 1) + "," + ws() + "\"path_id\":" + ws() + std::to_string(it.id);
    } else if (k == STRIPS) props += "\"crop_id\":" + esc(it.name) + ",\"x\":[1,2]";
    props += "}";
    if (k == SWATHS) {
      Ring r = makeRing(false, z);
      coords = jsonPts(r, z, false);
      it.rings.push_back(r);
    } else {
      coords = "[";
      int rings = 1 + (sim::draw(OPS, 3) == 2 ? 1 + sim::draw(OPS, 2) : 0);
      for (int j = 0; j < rings; ++j) { Ring r = makeRing(true, z); coords += (j ? "," : "") + jsonPts(r, z, true); it.rings.push_back(r); }
      coords += ws() + "]";
    }
    std::string type = std::string("\"type\":\"") + (k == SWATHS ? "LineString" : "Polygon") + "\"";
    geo += sim::draw(OPS, 2) ? type + "," + ws() + "\"coordinates\":" + ws() + coords : "\"coordinates\":" + coords + "," + type;
    geo += "}";
    t += (i ? "," + ws() : "") + "{\"type\":\"Feature\"," + ws() + (sim::draw(OPS, 2) ? props + "," + ws() + geo : geo + "," + props) + "}";
    c.push_back(it);
  }
  t += ws() + "]" + ws() + "}" + ws();
  if (k == CELL) c.resize(1);
  return t;
}

// -------------------------------------------------------------- strict reader
double strictNum(const std::string& s) {
  if (s.empty()) throw Malformed();
  size_t i = 0;
  if (s[0] == '+' || s[0] == '-') { if (s[0] == '+') throw Unclear(); ++i; }
  size_t d = i;
  while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i;
  size_t digits = i - d;
  if (i < s.size() && s[i] == '.') { ++i; size_t f = i; while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i; digits += i - f; }
  if (!digits) throw Malformed();
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t f = i;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i;
    if (i == f) throw Malformed();
  }
  if (i != s.size()) throw Malformed();
  PlainNumbers plain;
  double v = strtod(s.c_str(), nullptr);
  if (!std::isfinite(v)) throw Unclear();
  return v;
}
Ring gmlCoords(const char* text) {
  if (!text) throw Malformed();
  Ring r;
  std::istringstream is(text);
  is.imbue(std::locale::classic());
  std::string tup;
  size_t dims = 0;
  while (is >> tup) {
    std::vector<double> v;
    size_t b = 0;
    for (;;) {
      size_t e = tup.find(',', b);
      v.push_back(strictNum(tup.substr(b, e == std::string::npos ? e : e - b)));
      if (e == std::string::npos) break;
      b = e + 1;
    }
    if (v.size() < 2 || v.size() > 3) throw Malformed();
    if (dims && v.size() != dims) throw Unclear();
    dims = v.size();
    r.push_back({v[0], v[1], v.size() == 3 ? v[2] : 0});
  }
  if (r.empty()) throw Malformed();
  return r;
}
Ring jsonRing(const json& j) {
  if (!j.is_array()) throw Malformed();
  Ring r;
  for (auto& p : j) {
    if (!p.is_array()) throw Malformed();
    if (p.size() < 2) throw Malformed();
    for (auto& x : p) if (!x.is_number()) { if (x.is_boolean()) throw Unclear(); throw Malformed(); }
    if (p.size() > 3) throw Unclear();
    r.push_back({p[0], p[1], p.size() == 3 ? p[2].get<double>() : 0});
  }
  if (r.empty()) throw Unclear();
  return r;
}
const json& at(const json& j, const char* key) {
  if (!j.is_object() || !j.contains(key)) throw Malformed();
  return j.at(key);
}
std::string str(const json& j) { if (!j.is_string()) throw Malformed(); return j; }
Content strictRead(Kind k, const std::string& text) {
  Content c;
  if (k == GML) {
    tinyxml2::XMLDocument d;
    if (text.find('\0') != std::string::npos) throw Unclear();
    if (d.Parse(text.data(), text.size()) != tinyxml2::XML_SUCCESS || !d.RootElement()) throw Malformed();
    Item it;
    if (auto a = d.RootElement()->Attribute("id")) it.name = a;
    const tinyxml2::XMLElement* e = d.RootElement();
    for (const char* n : {"Field", "geometry", "gml:Polygon"}) { e = e->FirstChildElement(n); if (!e) throw Malformed(); }
    auto crs = e->Attribute("srsName");
    if (!crs) throw Malformed();
    it.crs = crs;
    auto ring = [&](const tinyxml2::XMLElement* b) {
      for (const char* n : {"gml:LinearRing", "gml:coordinates"}) { b = b->FirstChildElement(n); if (!b) throw Malformed(); }
      if (b->FirstChild() != b->LastChild()) throw Unclear();
      it.rings.push_back(gmlCoords(b->GetText()));
    };
    auto out = e->FirstChildElement("gml:outerBoundaryIs");
    if (!out) throw Malformed();
    ring(out);
    for (auto in = e->FirstChildElement("gml:innerBoundaryIs"); in; in = in->NextSiblingElement("gml:innerBoundaryIs")) ring(in);
    // parts this importer knows nothing about
    for (auto x = e->FirstChildElement(); x; x = x->NextSiblingElement())
      if (x != out && strcmp(x->Name(), "gml:innerBoundaryIs")) throw Unclear();
    c.push_back(it);
    return c;
  }
  json j;
  try { j = json::parse(text); } catch (const json::exception&) { throw Malformed(); }
  auto& fs = at(j, "features");
  if (!fs.is_array()) throw Malformed();
  for (auto& f : fs) {
    Item it;
    auto& co = at(at(f, "geometry"), "coordinates");
    if (k == SWATHS) it.rings.push_back(jsonRing(co));
    else {
      if (!co.is_array()) throw Malformed();
      if (co.empty()) throw Unclear();
      for (auto& r : co) it.rings.push_back(jsonRing(r));
    }
    if (k == FIELDS) it.name = str(at(at(f, "properties"), "Name"));
    if (k == STRIPS) it.name = str(at(at(f, "properties"), "crop_id"));
    if (k == SWATHS) {
      auto& p = at(f, "properties");
      auto& w = at(p, "width"); auto& i = at(p, "path_id");
      if (w.is_boolean() || i.is_boolean()) throw Unclear();
      if (!w.is_number() || !i.is_number()) throw Malformed();
      if (!i.is_number_integer() || std::fabs(i.get<double>()) > 2147483647.0) throw Unclear();
      it.width = w; it.id = i;
      if (it.width <= 0) throw Unclear();
    }
    c.push_back(it);
    if (k == CELL) break;
  }
  if (k == CELL && c.empty()) throw Malformed();
  return c;
}

// ------------------------------------------------------------------- comparing
// Polygon rings may be closed by the import when the file leaves them open.
std::string diffRing(Ring r, const OGRSimpleCurve* g, const Pt& o, bool ring) {
  if (ring && g && g->getNumPoints() == static_cast<int>(r.size()) + 1 && (r[0].x != r.back().x || r[0].y != r.back().y || r[0].z != r.back().z)) r.push_back(r[0]);
  if (!g || g->getNumPoints() != static_cast<int>(r.size()))
    return "a ring or line of " + std::to_string(r.size()) + " points has " + std::to_string(g ? g->getNumPoints() : 0);
  for (size_t i = 0; i < r.size(); ++i) {
    double w[] = {r[i].x, r[i].y, r[i].z}, v[] = {g->getX(i) + o.x, g->getY(i) + o.y, g->getZ(i) + o.z}, of[] = {o.x, o.y, o.z};
    for (int k = 0; k < 3; ++k)
      if (!(std::fabs(w[k] - v[k]) <= (of[k] == 0 ? 0 : 1e-15 * (std::fabs(w[k]) + std::fabs(of[k])))))
        return "point " + std::to_string(i) + ": file has " + ser::num(r[i].x) + " " + ser::num(r[i].y) + " " + ser::num(r[i].z) + ", import has " + ser::num(v[0]) + " " + ser::num(v[1]) + " " + ser::num(v[2]);
  }
  return "";
}
std::string diffPoly(const Item& it, const OGRPolygon* p, const Pt& o) {
  size_t n = p->getExteriorRing() ? 1 + p->getNumInteriorRings() : 0;
  if (n != it.rings.size()) return std::to_string(it.rings.size()) + " rings in the file, " + std::to_string(n) + " imported";
  for (size_t i = 0; i < n; ++i) {
    std::string d = diffRing(it.rings[i], i ? p->getInteriorRing(i - 1) : p->getExteriorRing(), o, true);
    if (!d.empty()) return d;
  }
  return "";
}
struct Outcome {
  bool silent {false};   // unknown coordinate systems are asked to be taken
  bool ok {false};
  int kind {0};
  F2CFields fields; F2CCell cell; F2CSwaths swaths; F2CStrips strips;
};
std::string diffContent(Kind k, const Content& c, const Outcome& o, size_t skip) {
  auto tag = [](size_t i, const std::string& d) { return d.empty() ? d : "item " + std::to_string(i) + ": " + d; };
  size_t n = k == GML || k == FIELDS ? o.fields.size() - skip : k == SWATHS ? o.swaths.size() : k == STRIPS ? o.strips.size() : 1;
  if (n != c.size()) return std::to_string(c.size()) + " items in the file, " + std::to_string(n) + " imported";
  for (size_t i = 0; i < c.size(); ++i) {
    std::string d;
    if (k == GML || k == FIELDS) {
      auto& f = o.fields[skip + i];
      if (f.getId() != c[i].name) return tag(i, "name " + c[i].name + " imported as " + f.getId());
      if (k == GML && f.getCRS() != c[i].crs) return tag(i, "system " + c[i].crs + " imported as " + f.getCRS());
      auto* mp = f.getField().get();
      if (mp->getNumGeometries() != 1) return tag(i, std::to_string(mp->getNumGeometries()) + " cells for one polygon");
      Pt off {f.getRefPoint()->getX(), f.getRefPoint()->getY(), f.getRefPoint()->getZ()};
      d = diffPoly(c[i], mp->getGeometryRef(0)->toPolygon(), off);
    } else if (k == CELL) d = diffPoly(c[i], o.cell.get(), {});
    else if (k == STRIPS) {
      if (o.strips[i].getName() != c[i].name) return tag(i, "name " + c[i].name + " imported as " + o.strips[i].getName());
      d = diffPoly(c[i], o.strips[i].getCell().get(), {});
    } else {
      auto& s = o.swaths[i];
      if (s.getId() != c[i].id) return tag(i, "id " + std::to_string(c[i].id) + " imported as " + std::to_string(s.getId()));
      if (s.getWidth() != c[i].width) return tag(i, "width " + ser::num(c[i].width) + " imported as " + ser::num(s.getWidth()));
      F2CLineString l = s.getPath();
      d = diffRing(c[i].rings[0], l.get(), {}, false);
    }
    if (!d.empty()) return tag(i, d);
  }
  return "";
}
std::string text(const F2CFields& f) { std::string r; for (auto& x : f) r += ser::s(x) + "\n"; return r; }

Outcome import(Kind k, const std::string& f, const F2CFields& before, const sim::IoPlan& pl, uint64_t alloc = 0) {
  Outcome o;
  for (auto& x : before) o.fields.push_back(x.clone());
  std::string loc = localeText(), b4 = text(o.fields);
  bool single = sim::draw(OPS, 2), silent = sim::draw(OPS, 3) == 2;
  o.silent = k == GML && single && silent;
  sim::ioArm(pl);
  if (alloc) sim::allocArm(alloc);
  try {
    switch (k) {
      case GML:
        if (single) { F2CField x = f2c::Parser::importFieldGml(f, silent); sim::AllocPause p; o.fields.emplace_back(x); }
        else f2c::Parser::importGml(f, o.fields);
        break;
      case FIELDS: { int r = f2c::Parser::importJson(f, o.fields); if (r != 0) throw std::runtime_error("status " + std::to_string(r)); break; }
      case CELL: o.cell = f2c::Parser::importCellJson(f); break;
      case SWATHS: o.swaths = f2c::Parser::importSwathsJson(f); break;
      default: o.strips = f2c::Parser::importStripsJson(f);
    }
    o.ok = true;
  } catch (const std::exception&) {
  }
  if (alloc) sim::count("fault.alloc", sim::allocDisarm());
  sim::ioDisarm();
  auto s = sim::ioStats();
  sim::count("fault.short_transfer", s.short_io); sim::count("fault.eintr", s.eintr); sim::count("fault.read_eio", s.eio); sim::count("fault.open_failed", s.open_failed);
  sim::count("probe.file_bytes", s.bytes);
  sim::count((std::string("op.import_") + kKind[k]).c_str());
  if (localeText() != loc) sim::violation("locale", "importing %s changed the process locale: %s became %s", kKind[k], loc.c_str(), localeText().c_str());
  std::string now = text(o.fields);
  if (o.ok ? now.compare(0, b4.size(), b4) != 0 : now != b4)
    sim::violation("collection", "a %s import of %s changed the fields already there: %s", o.ok ? "successful" : "failed", kKind[k], sim::diff(b4, now).c_str());
  return o;
}
void put(const std::string& f, const std::string& t) { FILE* h = fopen(f.c_str(), "wb"); if (!h) sim::harnessError("scratch"); fwrite(t.data(), 1, t.size(), h); fclose(h); }

sim::IoPlan transfers() {
  sim::IoPlan p;
  if (sim::draw(FAULT, 2)) p.max_chunk = 1 + sim::draw(FAULT, sim::draw(FAULT, 2) ? 7 : 400);
  if (sim::draw(FAULT, 3) == 2) p.eintr_every = 2 + sim::draw(FAULT, 4);
  return p;
}
// Compares an import with what a strict reader makes of the same bytes.
void judge(Kind k, const std::string& bytes, const Outcome& o, size_t skip, const char* what, bool may_fail) {
  Content c;
  int verdict = 0;
  try { c = strictRead(k, bytes); } catch (const Malformed&) { verdict = 1; } catch (const Unclear&) { verdict = 2; }
  sim::log("%s: strict reader: %s; import: %s", what, verdict == 0 ? "well-formed" : verdict == 1 ? "malformed" : "unclear", o.ok ? "returned" : "threw");
  sim::sig(what); sim::sig(verdict * 2 + o.ok);
  if (verdict == 2) { sim::count("probe.unclear_file"); return; }
  if (verdict == 1) {
    if (o.ok) sim::violation("malformed-accepted", "%s: the %s import of a malformed file reported success: %s", what, kKind[k], sim::brief(bytes, 900).c_str());
    return;
  }
  if (!o.ok) {
    if (!may_fail) sim::violation("load-failed", "%s: a well-formed %s file was refused: %s", what, kKind[k], sim::brief(bytes, 900).c_str());
    return;
  }
  std::string d = diffContent(k, c, o, skip);
  if (!d.empty()) sim::violation("content", "%s: %s import: %s; file: %s", what, kKind[k], d.c_str(), sim::brief(bytes, 700).c_str());
}
// The file with one structural mistake.
std::string mistake(Kind k, const std::string& t) {
  std::vector<std::pair<const char*, const char*>> e;
  if (k == GML) e = {{"gml:coordinates", "gml:pos"}, {"gml:LinearRing", "gml:Ring"}, {"gml:outerBoundaryIs", "gml:exterior"}, {"gml:Polygon", "gml:Surface"}, {"<geometry>", "<geometry><gml:none/></geometry><shape>"},
      {"<Field", "<Parcel"}, {" srsName=", " name="}, {",", ";"}, {",", ",,"}, {"<gml:coordinates>", "<gml:coordinates></gml:coordinates><gml:c>"}, {"</parcel>", ""}, {".", "o"}, {"<gml:coordinates>", "<gml:coordinates>1 2,"}};
  else e = {{"\"features\"", "\"Features\""}, {"\"geometry\"", "\"geom\""}, {"\"properties\"", "\"props\""}, {"\"coordinates\"", "\"coords\""}, {"\"Name\":", "\"name\":"}, {"\"crop_id\":", "\"crop\":"},
      {"\"path_id\":", "\"id\":"}, {"\"width\":", "\"w\":"}, {"\"features\":", "\"features\":null,\"x\":"}, {"\"coordinates\":", "\"coordinates\":null,\"x\":"}, {"\"coordinates\":", "\"coordinates\":7,\"x\":"},
      {"\"geometry\":", "\"geometry\":null,\"x\":"}, {"\"coordinates\":", "\"coordinates\":{},\"x\":"}, {"\"features\":", "\"features\":{},\"x\":"}, {"\"properties\":", "\"properties\":null,\"x\":"},
      {"\"coordinates\":", "\"coordinates\":[[[1]]],\"x\":"}, {"\"coordinates\":", "\"coordinates\":[[1],[2]],\"x\":"}, {"\"coordinates\":", "\"coordinates\":[[[\"1\",2],[3,4]]],\"x\":"}, {"\"coordinates\":", "\"coordinates\":[[[[1,2],[3,4],[5,6],[1,2]]]],\"x\":"},
      {"\"coordinates\":", "\"coordinates\":[[\"1\",2],[3,4]],\"x\":"}, {"\"coordinates\":", "\"coordinates\":[[[],[]]],\"x\":"}, {"\"Name\":", "\"Name\":5,\"x\":"}, {"\"width\":", "\"width\":\"2\",\"x\":"}, {"\"coordinates\":", "\"coordinates\":[[null,[1,2]]],\"x\":"},
      {"\"path_id\":", "\"path_id\":\"2\",\"x\":"}, {"\"coordinates\":", "\"coordinates\":[[1,2],[]],\"x\":"}, {"{", "[{"}, {"\"features\":", "\"features\":5,\"x\":"}, {"\"features\":", "\"features\":[7],\"x\":"}};
  auto& x = e[sim::draw(FAULT, e.size())];
  std::vector<size_t> at;
  for (size_t p = t.find(x.first); p != std::string::npos; p = t.find(x.first, p + 1)) at.push_back(p);
  if (at.empty()) return t;
  size_t p = at[sim::draw(FAULT, at.size())];
  return t.substr(0, p) + x.second + t.substr(p + strlen(x.first));
}
}  // namespace

void propertyInit() { loadLocales(); }
void propertyRun() {
  std::string dir = sim::scratchName("c06");
  ::mkdir(dir.c_str(), 0700);
  std::string f = dir + "/file", g = dir + "/other";
  Kind k = static_cast<Kind>(sim::draw(OPS, 5));
  Content c;
  std::string t = makeFile(k, c);
  F2CFields before;
  for (int i = 0, n = sim::draw(OPS, 3); i < n; ++i) {
    F2CCell cell;
    double s = 1 + sim::draw(OPS, 9);
    cell.addRing(F2CLinearRing({F2CPoint(s, 0), F2CPoint(2 * s, 0), F2CPoint(s, s), F2CPoint(s, 0)}));
    before.emplace_back(F2CCells(cell), "before" + std::to_string(i));
  }
  pickLocale();
  put(f, t);
  sim::log("%s, %zu items, %zu bytes", kKind[k], c.size(), t.size());
  sim::sig(kKind[k]); sim::sig(localeText());
  {
    Outcome o = import(k, f, before, transfers());
    if (!o.ok) sim::violation("load-failed", "a valid %s file was refused: %s", kKind[k], sim::brief(t, 900).c_str());
    std::string d = diffContent(k, c, o, before.size());
    if (!d.empty()) sim::violation("content", "%s import: %s; file: %s", kKind[k], d.c_str(), sim::brief(t, 700).c_str());
    judge(k, t, o, before.size(), "intact", false);
  }
  int rounds = 1 + sim::draw(FAULT, 5);
  for (int i = 0; i < rounds; ++i) {
    sim::nontrivial();
    switch (sim::draw(FAULT, 8)) {
      case 7: {  // a coordinate system nobody knows
        size_t p = t.find("<gml:Polygon srsName=\"");
        if (k != GML || p == std::string::npos) break;
        p += 22;
        static const char* no[] = {"EPSG:99", "EPSG:999999", "nowhere", "", "UTM", "UTM:31N datum:nowhere", "EPSG", "urn:ogc:def:crs:LOCAL::1"};
        std::string m = t;
        m.replace(p, m.find('"', p) - p, no[sim::draw(FAULT, 8)]);
        put(g, m);
        sim::count("fault.unknown_system");
        Outcome o = import(k, g, before, transfers());
        if (!o.silent && o.ok) sim::violation("unknown-accepted", "the import of a file in an unknown coordinate system reported success: %s", sim::brief(m, 300).c_str());
        judge(k, m, o, before.size(), "unknown system", true);
        break;
      }
      case 0: {  // torn
        size_t n = sim::draw(FAULT, 4) == 3 ? t.size() - sim::draw(FAULT, std::min<size_t>(t.size(), 12) + 1) : sim::draw(FAULT, t.size() + 1);
        put(g, t.substr(0, n));
        sim::count("fault.torn_file");
        Outcome o = import(k, g, before, transfers());
        judge(k, t.substr(0, n), o, before.size(), "torn", false);
        break;
      }
      case 1: {  // half overwritten: the start of one file, the rest of another
        Content c2;
        std::string u = makeFile(k, c2);
        size_t n = sim::draw(FAULT, std::min(t.size(), u.size()));
        std::string m = t.substr(0, n) + u.substr(n);
        put(g, m);
        sim::count("fault.half_written_file");
        Outcome o = import(k, g, before, transfers());
        judge(k, m, o, before.size(), "half-written", true);
        break;
      }
      case 2: {  // damaged bytes
        std::string m = t;
        static const char with[] = "@x-., 9<{\"e\n]}0/>&";
        for (int j = 0, n = 1 + sim::draw(FAULT, 2); j < n; ++j) {
          size_t p = sim::draw(FAULT, m.size());
          uint32_t w = sim::draw(FAULT, sizeof with);
          if (sim::draw(FAULT, 4) == 3) m.erase(p, 1); else m[p] = with[w];
        }
        put(g, m);
        sim::count("fault.damaged_byte");
        Outcome o = import(k, g, before, transfers());
        // a damaged name of a coordinate system may be refused
        judge(k, m, o, before.size(), "damaged", true);
        break;
      }
      case 3: {  // structure
        std::string m = mistake(k, t);
        put(g, m);
        sim::count("fault.malformed_file");
        Outcome o = import(k, g, before, transfers());
        judge(k, m, o, before.size(), "malformed", true);
        break;
      }
      case 4: {  // read error
        sim::IoPlan pl = transfers();
        pl.fail_read_at = sim::draw(FAULT, t.size() + 2);
        Outcome o = import(k, f, before, pl);
        bool fired = sim::ioStats().eio > 0;
        judge(k, t, o, before.size(), "read error", fired);
        break;
      }
      case 5: {  // no file
        uint32_t w = sim::draw(FAULT, 3);
        sim::IoPlan pl;
        if (w == 0) { static const int e[] = {EACCES, EMFILE, EIO, ENOENT}; pl.open_errno = e[sim::draw(FAULT, 4)]; }
        else sim::count("fault.missing_file");
        Outcome o = import(k, w == 0 ? f : w == 1 ? dir + "/none" : dir, before, pl);
        sim::sig("none");
        sim::log("missing or unreadable: %s", o.ok ? "returned" : "threw");
        if (o.ok) sim::violation("missing-accepted", "the %s import of a missing or unreadable file reported success", kKind[k]);
        break;
      }
      default: {  // memory (the json library itself dies when it fails in its destructors)
        if (k != GML) break;
        uint64_t total;
        {
          sim::allocCountStart();
          import(k, f, before, {});
          total = sim::allocCountStop();
        }
        if (!total) break;
        Outcome o = import(k, f, before, transfers(), 1 + sim::draw(FAULT, total));
        judge(k, t, o, before.size(), "memory", true);
      }
    }
  }
  Outcome o = import(k, f, before, transfers());
  judge(k, t, o, before.size(), "again", false);
  for (auto& x : {f, g}) ::unlink(x.c_str());
  ::rmdir(dir.c_str());
}

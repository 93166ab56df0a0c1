#include "jobs.h"
#include <cstring>
#include <locale>
#include <sstream>

const Op* drawOp(bool (*want)(const Op&), uint32_t heavy_one_in) {
  std::vector<const Op*> light, heavy;
  for (auto& o : ops()) if (want(o)) ((o.flags & kHeavy) ? heavy : light).push_back(&o);
  bool h = sim::draw(sim::OPS, heavy_one_in) == heavy_one_in - 1;
  auto& v = light.empty() || (h && !heavy.empty()) ? heavy : light;
  if (v.empty()) sim::harnessError("no operation qualifies");
  return v[sim::draw(sim::OPS, v.size())];
}
Job drawJob(bool (*want)(const Op&), uint32_t heavy_one_in) {
  Job j;
  j.world = sim::makeParams(160);
  j.what = drawOp(want, heavy_one_in);
  j.op = sim::makeParams(24);
  return j;
}
std::string encode(const Reference& r) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o << r.allocs << ' ' << r.callbacks << ' ' << r.geos << ' ' << r.world.size() << '\n' << r.world << r.result;
  return o.str();
}
Reference decode(const std::string& s) {
  Reference r;
  size_t nl = s.find('\n'), n = 0;
  std::istringstream i(s.substr(0, nl));
  i.imbue(std::locale::classic());
  i >> r.allocs >> r.callbacks >> r.geos >> n;
  r.world = s.substr(nl + 1, n);
  r.result = s.substr(nl + 1 + n);
  return r;
}

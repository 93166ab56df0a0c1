// variant=asan uses=ops,ser,jobs,solver
// A chain of operations on one set of inputs and one set of planner objects; an
// allocation or a user callback fails inside each. Oracle: the same operation
// in a fresh process without failures.
#include "jobs.h"
#include "fault.h"
const char* const kProperty = "C04";

static bool want(const Op& o) { return !(o.flags & kFile); }

void propertyRun() {
  sim::Params wp = sim::makeParams(160);
  int n = 1 + sim::draw(sim::OPS, 4);
  struct Step { const Op* op; sim::Params p; Reference ref; bool cb; };
  std::vector<Step> steps;
  for (int i = 0; i < n; ++i) {
    Step s;
    // what a failure leaves behind shows best when the next is alike
    uint32_t like = i ? sim::draw(sim::OPS, 3) : 2;
    s.op = like < 2 ? steps.back().op : drawOp(want, 6);
    s.p = like == 0 ? sim::siblingOf(steps.back().p) : sim::makeParams(24);
    s.cb = false;
    steps.push_back(s);
  }
  for (auto& s : steps) {
    try {
      s.ref = decode(sim::isolated([&] {
        sim::Params q = wp;
        World w = makeWorld(q);
        Reference r;
        r.world = worldText(w);
        { Tools t; r.result = runOp(*s.op, w, s.p, t); }
        {
          Tools t;
          callbackCountStart();
          sim::allocCountStart();
          runOp(*s.op, w, s.p, t);
          r.allocs = sim::allocCountStop();
          r.callbacks = callbackCountStop();
        }
        return encode(r);
      }));
    } catch (const std::runtime_error& e) {
      sim::violation("crash-without-fault", "%s alone in a fresh process: %s", s.op->name, e.what());
    }
  }
  World w = makeWorld(wp);
  Tools tools;
  std::string before = worldText(w);
  const std::string settings = keptText(tools);
  if (before != steps[0].ref.world) sim::violation("inputs", "same inputs, other world: %s", sim::diff(steps[0].ref.world, before).c_str());
  for (auto& s : steps) {
    sim::count((std::string("op.") + s.op->name).c_str());
    int attempts = 1 + sim::draw(sim::FAULT, 3);
    for (int a = 0; a < attempts; ++a) {
      bool cb = s.ref.callbacks > 0 && sim::draw(sim::FAULT, 2);
      uint64_t total = cb ? s.ref.callbacks : s.ref.allocs;
      if (!total) continue;
      // first, last or anywhere
      uint64_t k;
      switch (sim::draw(sim::FAULT, 6)) {
        case 0: k = 1 + sim::draw(sim::FAULT, std::min<uint64_t>(total, 8)); break;
        case 1: k = total - sim::draw(sim::FAULT, std::min<uint64_t>(total, 8)); break;
        default: k = 1 + sim::draw(sim::FAULT, total);
      }
      uint64_t run = sim::draw(sim::FAULT, 4) == 3 ? 1000000000 : 1;
      bool threw = false;
      std::string got, how;
      if (cb) callbackArm(k, run, sim::draw(sim::FAULT, 5)); else sim::allocArm(k, run);
      try {
        got = runOpRaw(*s.op, w, s.p, tools);
      } catch (const std::exception& e) {
        threw = true;
        sim::AllocPause pause;
        how = e.what();
      } catch (int) {
        threw = true;
      }
      uint64_t failed = cb ? callbackDisarm() : sim::allocDisarm();
      sim::log("%s: %s %llu of %llu%s %s", s.op->name, cb ? "callback" : "allocation", (unsigned long long)k, (unsigned long long)total,
          run > 1 ? " and all later ones" : "", failed ? threw ? "failed, the operation threw" : "failed, the operation returned" : "was not reached");
      if (failed) {
        sim::count(cb ? "fault.callback" : "fault.alloc", failed);
        sim::nontrivial();
        sim::sig(std::string(s.op->name) + (cb ? "c" : "a"));
        sim::sig(k * 64 / total + (run > 1 ? 100 : 0));
        if (!threw) {
          sim::count("probe.returned_despite_failure");
          if (got != s.ref.result)
            sim::violation("wrong-result", "%s returned a wrong result after %s %llu failed: %s", s.op->name,
                cb ? "callback" : "allocation", (unsigned long long)k, sim::diff(s.ref.result, got).c_str());
        }
      } else if (threw ? s.ref.result[0] != '!' : got != s.ref.result) {
        sim::violation("state", "%s without a failure gave another result than in a fresh process: %s", s.op->name,
            threw ? how.c_str() : sim::diff(s.ref.result, got).c_str());
      }
      std::string after = worldText(w);
      if (after != before) sim::violation("inputs", "%s changed its inputs when it failed: %s", s.op->name, sim::diff(before, after).c_str());
      if (keptText(tools) != settings)
        sim::violation("settings", "%s changed the settings of planners: %s", s.op->name, sim::diff(settings, keptText(tools)).c_str());
    }
    std::string again = runOp(*s.op, w, s.p, tools);
    if (again != s.ref.result)
      sim::violation("retry", "%s repeated after a failure: %s", s.op->name, sim::diff(s.ref.result, again).c_str());
    std::string after = worldText(w);
    if (after != before) sim::violation("inputs", "%s changed its inputs: %s", s.op->name, sim::diff(before, after).c_str());
    sim::log("%s repeated: %016llx", s.op->name, (unsigned long long)sim::hashStr(again));
  }
}

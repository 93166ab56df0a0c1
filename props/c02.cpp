// variant=tsan uses=ops,ser,jobs,solver
// Planning jobs on objects of their own, one after another and interleaved on
// simulated threads. Oracle: each job alone in a fresh process.
#include <cfenv>
#include <clocale>
#include <csignal>
#include <memory>
#include <locale>
#include <unistd.h>
#include <cpl_conv.h>
#include <cpl_string.h>
#include "jobs.h"
#include "locales.h"
#include "solver.h"
#include "threads.h"
const char* const kProperty = "C02";

namespace {
bool want(const Op&) { return true; }
struct Planned {
  Job job;
  std::string ref, ref_world, got, got_world;
};

// What every part of a program shares.
std::string processText() {
  static std::string dir0, env0;
  char d[4096];
  std::string dir = getcwd(d, sizeof d) ? d : "-", env;
  for (char** e = environ; e && *e; ++e) env += std::string(", ") + *e;
  if (dir0.empty()) { dir0 = dir; env0 = env; }
  std::string r = "locale " + localeText();
  if (dir != dir0) r += ", another directory";
  if (env != env0) r += ", another environment";
  if (char** o = CPLGetConfigOptions()) {
    for (char** i = o; *i; ++i) r += std::string(", ") + *i;
    CSLDestroy(o);
  }
  for (int k : {SIGFPE, SIGINT, SIGTERM, SIGALRM, SIGPIPE, SIGUSR1}) {
    struct sigaction a;
    sigaction(k, nullptr, &a);
    r += a.sa_handler == SIG_DFL ? " d" : a.sa_handler == SIG_IGN ? " i" : " h";
  }
  return r;
}
// ... and what the jobs of a thread share.
std::string threadText() {
  char** o = CPLGetThreadLocalConfigOptions();
  std::string r = "rounding " + std::to_string(fegetround()) + " traps " + std::to_string(fegetexcept());
  for (char** i = o; i && *i; ++i) r += std::string(", ") + *i;
  CSLDestroy(o);
  return r;
}
}

void propertyInit() { loadLocales(); }
void propertyRun() {
  uint32_t heap = sim::draw(sim::SCHED, 4);
  sim::recycleHeap(heap == 3 ? 1 : heap, 12345 + sim::draw(sim::SCHED, 1000));
  sim::sig(heap);
  uint32_t threads = 1 + sim::draw(sim::OPS, 4);
  solver::Plan plan;
  plan.any_arc = true;
  plan.order_seed = sim::draw(sim::OPS, 3) ? 1 + sim::draw(sim::OPS, 1000) : 0;
  solver::set(plan);
  pickLocale();
  // jobs alike and unlike: state kept between calls shows best on those that
  // differ from an earlier one in little
  Job base = drawJob(want, 6);
  std::vector<std::vector<Planned>> plans(threads);
  for (auto& v : plans) {
    uint32_t n = 1 + sim::draw(sim::OPS, threads == 1 ? 6 : 3);
    for (uint32_t i = 0; i < n; ++i) {
      Planned j;
      switch (sim::draw(sim::OPS, 8)) {
        case 6: j.job = base; j.job.world.v[0] = sim::draw(sim::OPS, 8); break;   // the same field elsewhere
        case 0: case 1: j.job = base; j.job.op = sim::siblingOf(base.op); break;
        case 2: j.job = base; j.job.world = sim::siblingOf(base.world); break;
        case 3: j.job = base; j.job.what = drawOp(want, 6); j.job.op = sim::makeParams(24); break;
        case 4: j.job = base; break;
        default: j.job = drawJob(want, 6);
      }
      v.push_back(j);
    }
  }
  for (auto& v : plans)
    for (auto& j : v) {
      try {
        Reference r = decode(sim::isolated([&] {
          sim::Params p = j.job.world;
          Reference r;
          World w = makeWorld(p);
          r.world = worldText(w);
          Tools t;
          r.result = runOp(*j.job.what, w, j.job.op, t);
          return encode(r);
        }));
        j.ref = r.result; j.ref_world = r.world;
      } catch (const std::runtime_error& e) {
        sim::violation("crash-alone", "%s alone in a fresh process: %s", j.job.what->name, e.what());
      }
    }
  const std::string process0 = processText(), thread0 = threadText();
  std::string thread1 = thread0;
  auto user = [&](uint32_t u) {
    for (auto& j : plans[u]) {
      sim::Params p = j.job.world;
      auto w = std::make_unique<World>(makeWorld(p));
      std::string text = worldText(*w);
      auto t = std::make_unique<Tools>();
      std::string r = runOp(*j.job.what, *w, j.job.op, *t);
      t.reset();
      w.reset();
      sim::Quiet quiet;
      j.got = r; j.got_world = text;
      std::string now = threadText();
      if (now != thread0) thread1 = std::string("after ") + j.job.what->name + ": " + now;
    }
  };
  if (threads == 1) user(0);
  else {
    std::vector<std::function<void()>> jobs;
    for (uint32_t u = 0; u < threads; ++u) jobs.push_back([&, u] { user(u); });
    sim::runThreads(std::move(jobs));
  }
  auto st = sim::threadStats();
  const std::string process1 = processText();
  if (process1 != process0) sim::violation("process", "the jobs left the process otherwise than they found it: %s", sim::diff(process0, process1).c_str());
  if (thread1 != thread0) sim::violation("thread", "a job left its thread otherwise than it found it: %s instead of %s", thread1.c_str(), thread0.c_str());
  for (uint32_t u = 0; u < threads; ++u)
    for (size_t i = 0; i < plans[u].size(); ++i) {
      auto& j = plans[u][i];
      if (j.got_world != j.ref_world)
        sim::violation("other-inputs", "thread %u job %zu (%s): its inputs came out otherwise than in a fresh process: %s", u, i, j.job.what->name, sim::diff(j.ref_world, j.got_world).c_str());
      if (j.got != j.ref)
        sim::violation("other-result", "thread %u job %zu (%s) gave another result than in a fresh process: %s", u, i, j.job.what->name, sim::diff(j.ref, j.got).c_str());
      sim::log("thread %u job %zu: %s %016llx", u, i, j.job.what->name, (unsigned long long)sim::hashStr(j.got));
      sim::count((std::string("op.") + j.job.what->name).c_str());
      sim::sig(j.job.what->name);
    }
  sim::count("fault.preemption", st.switches);
  sim::count("probe.threads", st.threads);
  sim::count("probe.accesses_checked", st.accesses);
  sim::count(threads == 1 ? "probe.runs_one_after_another" : "probe.runs_interleaved");
  if (st.switches > threads || (threads == 1 && plans[0].size() > 1)) sim::nontrivial();
  sim::sig(st.interleaving);
  sim::log("interleaving %016llx", (unsigned long long)st.interleaving);
}

// A catalogue of the library's operations over generated inputs. Each operation
// reads a World (read-only inputs), further inputs from Params, keeps reusable
// planner objects in Tools, and returns its complete result as text. The same
// (World inputs, Params) always mean the same operation, so a result can be
// compared with that of a fresh process, another interleaving, or a retry.
#pragma once
#include <stdexcept>
#include <memory>
#include <string>
#include <vector>
#include "sim.h"
#include "ser.h"

// Objects nothing was put in.
struct Nothing {
  F2CCell cell; F2CCells cells; F2CField field; F2CSwaths swaths; F2CSwathsByCells by; F2CRoute route; F2CPath path;
  F2CLinearRing ring; F2CLineString line; F2CMultiLineString lines; F2CMultiPoint mp; F2CStrip strip; F2CSwath swath;
};
std::string nothingText(const Nothing& n);
struct World {
  F2CRobot robot;
  F2CCell cell;
  F2CCells cells;
  F2CCells other;            // overlaps cells partly
  F2CField field;
  F2CField geo_field;        // with a coordinate system
  F2CSwaths swaths;
  F2CSwathsByCells by_cells;
  F2CRoute route;
  F2CPath path;
  F2CLinearRing ring;
  F2CLineString line;
  F2CMultiLineString lines;
  F2CMultiPoint mp;
  F2CStrips strips;
  F2CGraph2D graph;
  Nothing none;
  std::vector<F2CPoint> nodes;     // of graph
  std::vector<double> sx, sy;      // spline points
  double width {2.0}, angle {0.0};
};
World makeWorld(sim::Params& p);
// Everything reachable through the world, as text.
std::string worldText(const World& w);

// A failing callback may throw anything.
struct CallbackFailure : std::runtime_error {
  CallbackFailure() : std::runtime_error("callback failed") {}
};
// Where user-supplied objects are called back; the armed call throws.
void callbackArm(uint64_t k, uint64_t n = 1, uint32_t kind = 0);  // kind < 5
uint64_t callbackDisarm();
void callbackCountStart();
uint64_t callbackCountStop();
void callbackPoint();

// Objects with state that survives from one operation to the next.
struct Tools {
  f2c::sg::BruteForce bf;
  f2c::hg::ConstHL hl;
  f2c::decomp::TrapezoidalDecomp trap;
  f2c::decomp::BoustrophedonDecomp bous;
  f2c::pp::DubinsCurves dubins;
  f2c::pp::DubinsCurvesCC dubins_cc;
  f2c::pp::ReedsSheppCurves rs;
  f2c::pp::ReedsSheppCurvesHC rs_hc;
  f2c::rp::RoutePlannerBase rp;
  // Never configured: whatever happens to them, their settings stay the default ones.
  struct {
    f2c::sg::BruteForce bf;
    f2c::decomp::TrapezoidalDecomp trap;
    f2c::decomp::BoustrophedonDecomp bous;
    f2c::pp::DubinsCurves dubins;
    f2c::pp::DubinsCurvesCC dubins_cc;
    f2c::pp::ReedsSheppCurves rs;
    f2c::pp::ReedsSheppCurvesHC rs_hc;
  } kept;
  std::shared_ptr<F2CPath> path;   // one whose change failed, to be repeated
  F2CGraph2D graph;          // lazily cached answers
  bool graph_ready {false};
};

// The settings of all planners nobody configured.
std::string keptText(const Tools& t);

enum OpFlag : unsigned {
  kGeos = 1,        // builds geometry with the engine
  kCallback = 2,    // calls user-supplied objects
  kProj = 4,        // coordinate transformations
  kHeavy = 8,       // slow: rarely chosen under instrumentation
  kFile = 16,       // reads or writes files
  kTools = 32,      // uses state kept in Tools
};
struct Op {
  const char* name;
  unsigned flags;
  std::string (*run)(const World&, sim::Params&, Tools&);
};
const std::vector<Op>& ops();
const Op& opNamed(const std::string& name);
// An exception of the library is a result too (its kind, not its words).
std::string runOp(const Op& op, const World& w, sim::Params p, Tools& t);
std::string runOpRaw(const Op& op, const World& w, sim::Params p, Tools& t);

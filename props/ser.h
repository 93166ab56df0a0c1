// Exact text of library objects, for comparing results bit for bit.
#pragma once
#include <string>
#include "fields2cover.h"

namespace ser {
std::string num(double d);
std::string s(const F2CPoint& p);
std::string s(const F2CLineString& g);
std::string s(const F2CLinearRing& g);
std::string s(const F2CMultiLineString& g);
std::string s(const F2CMultiPoint& g);
std::string s(const F2CCell& g);
std::string s(const F2CCells& g);
std::string s(const F2CSwath& x);
std::string s(const F2CSwaths& x);
std::string s(const F2CSwathsByCells& x);
std::string s(const F2CRoute& x);
std::string s(const F2CField& x);
std::string s(const F2CRobot& x);
std::string s(const F2CPath& x);
std::string s(const F2CStrip& x);
std::string s(const std::vector<F2CPoint>& x);
std::string geom(const OGRGeometry* g);
template <class T> std::string list(const T& v) { std::string r = "["; for (auto& x : v) { r += std::to_string(x); r += ","; } return r + "]"; }
}  // namespace ser

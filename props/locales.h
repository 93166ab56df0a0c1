// Process locales with other number punctuation (C and C++ need none installed).
#pragma once
#include <locale.h>
#include <stdlib.h>
#include <unistd.h>
#include <locale>
#include <sstream>
#include <string>
#include "sim.h"
struct Punct : std::numpunct<char> {
  char dp, ts; std::string gr;
  Punct(char d, char t, std::string g) : dp(d), ts(t), gr(g) {}
  char do_decimal_point() const override { return dp; }
  char do_thousands_sep() const override { return ts; }
  std::string do_grouping() const override { return gr; }
};
// Locales of the C library, made by the build from the system's definitions:
// decimal comma, grouping, and (Turkish) other upper and lower case.
inline const char* const* cLocales() {
  static const char* const n[] = {"C", "C.utf8", "de_DE.UTF-8", "tr_TR.ISO-8859-9"};
  return n;
}
inline void loadLocales() {
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n > 0) {
    std::string d(exe, static_cast<size_t>(n));
    setenv("LOCPATH", (d.substr(0, d.rfind('/')) + "/locales").c_str(), 1);
  }
  for (int i = 3; i >= 0; --i) setlocale(LC_ALL, cLocales()[i]);
}
inline void pickCLocale() {
  uint32_t c = sim::draw(sim::OPS, 6);
  setlocale(LC_ALL, cLocales()[c < 4 ? c : c == 4 ? 2 : 0]);
  if (localeconv()->decimal_point[0] == ',') sim::count("fault.decimal_comma");
}
inline void pickLocale() {
  switch (sim::draw(sim::OPS, 4)) {
    case 1: std::locale::global(std::locale(std::locale::classic(), new Punct(',', '.', "\3"))); break;
    case 2: std::locale::global(std::locale(std::locale::classic(), new Punct('.', ',', "\3"))); break;
    case 3: std::locale::global(std::locale(std::locale::classic(), new Punct(',', ' ', "\2"))); break;
    default: std::locale::global(std::locale::classic());
  }
  pickCLocale();
}
inline std::string localeText() {
  std::ostringstream o;
  o << 1234567.5;
  return setlocale(LC_ALL, nullptr) + (" " + o.str());
}
// The harness's own numbers.
struct PlainNumbers {
  locale_t old;
  PlainNumbers() {
    static locale_t c = newlocale(LC_ALL_MASK, "C", nullptr);
    old = uselocale(c);
  }
  ~PlainNumbers() { uselocale(old); }
};

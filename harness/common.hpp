// Shared parts of the drivers: event log, decision source, fault injection.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vf {

// ---------------------------------------------------------------- allocation faults
struct Fault { long at; long seen; bool on; bool sticky; };
inline Fault &fault() { static Fault f = {-1, 0, false, false}; return f; }
struct NoFault {            // user code and the driver itself never see injected faults
  bool old; NoFault(): old(fault().on) { fault().on = false; } ~NoFault() { fault().on = old; }
};

// ---------------------------------------------------------------- log
inline int &logfd() { static int fd = 1; return fd; }
inline std::string &logbuf() { static std::string s; return s; }
inline void logflush() {
  std::string &b = logbuf(); size_t o = 0;
  while(o < b.size()) { ssize_t n = ::write(logfd(), b.data() + o, b.size() - o); if(n <= 0) break; o += n; }
  b.clear();
}
inline bool &logthrough() { static bool b = true; return b; }
// one event per line; written at once, so that a crash loses nothing
inline void logline(const std::string &s) {
  NoFault nf; logbuf() += s; logbuf() += '\n'; if(logthrough() || logbuf().size() > 60000) logflush();
}

// ---------------------------------------------------------------- tokens: one decision of the environment
struct Tok {
  std::string k;                    // op, cret, cthrow, deref, inc, cend, sdtorE, odtorE, stop
  std::string o;                    // operation name
  std::vector<std::pair<std::string,int> > a;
  std::vector<int> trk; bool has_trk;
  std::string kind;
  Tok(): has_trk(false) {}
  explicit Tok(const std::string &k_, const std::string &o_ = ""): k(k_), o(o_), has_trk(false) {}
  int get(const char *n, int d = 0) const { for(size_t i = 0; i < a.size(); ++i) if(a[i].first == n) return a[i].second; return d; }
  Tok &set(const char *n, int v) { for(size_t i = 0; i < a.size(); ++i) if(a[i].first == n) { a[i].second = v; return *this; } a.push_back(std::make_pair(std::string(n), v)); return *this; }
  std::string json() const {
    std::string s;
    if(!o.empty()) s += ",\"o\":\"" + o + "\"";
    for(size_t i = 0; i < a.size(); ++i) s += ",\"" + a[i].first + "\":" + std::to_string(a[i].second);
    if(!kind.empty()) s += ",\"kind\":\"" + kind + "\"";
    if(has_trk) { s += ",\"trk\":["; for(size_t i = 0; i < trk.size(); ++i) s += (i ? "," : "") + std::to_string(trk[i]); s += "]"; }
    return s;
  }
};
inline bool parse_tok(const char *line, Tok &t) {   // "op connect hd=1 kind=p trk=1.2"
  t = Tok(); std::vector<std::string> w; const char *p = line;
  while(*p) { while(*p == ' ' || *p == '\n') ++p; const char *q = p; while(*q && *q != ' ' && *q != '\n') ++q; if(q > p) w.push_back(std::string(p, q)); p = q; }
  if(w.empty()) return false;
  t.k = w[0]; size_t i = 1;
  if(t.k == "op") t.o = w[i++];
  for(; i < w.size(); ++i) {
    size_t e = w[i].find('='); if(e == std::string::npos) continue;
    std::string n = w[i].substr(0, e), v = w[i].substr(e + 1);
    if(n == "kind") t.kind = v;
    else if(n == "trk") { t.has_trk = true; const char *c = v.c_str(); while(*c) { t.trk.push_back(std::strtol(c, (char**)&c, 10)); if(*c) ++c; } }
    else t.set(n.c_str(), std::atoi(v.c_str()));
  }
  return true;
}

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0x1234567ull; next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
  bool chance(int pct) { return below(100) < pct; }
};
} // namespace vf
#endif

// Frame of the smaller drivers: programs are sequences of operations (random or from a script), every
// operation is logged as {"e":"op",...}, observable happenings inside it as further events, its end as
// {"e":"ret",...}.
//   X rand OUT SEED N key=val...      X script OUT FILE
#ifndef VERIF_MINI_HPP
#define VERIF_MINI_HPP
#include "common.hpp"
#include <signal.h>
namespace vf {
static long g_live = 0;
inline bool fault_hit() { Fault &f = fault(); if(!f.on) return false; long k = f.seen++; return f.sticky ? k >= f.at : k == f.at; }
inline std::string kv(const char *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
inline std::string ks(const char *k, const std::string &v) { return std::string(",\"") + k + "\":\"" + v + "\""; }
inline void event(const char *e, const std::string &rest = "") { NoFault nf; logline(std::string("{\"e\":\"") + e + "\",\"t\":1,\"h\":0" + rest + "}"); }
struct FaultScope {
  Fault old;
  FaultScope(const Tok &t): old(fault()) { int f = t.get("flt"); if(f) { fault().at = t.get("fa"); fault().seen = 0; fault().sticky = f == 2; fault().on = true; } }
  ~FaultScope() { fault() = old; }
};
struct Profile { std::map<std::string,int> w; int get(const std::string &k, int d) const { std::map<std::string,int>::const_iterator i = w.find(k); return i == w.end() ? d : i->second; } };

// to be defined by the driver
void d_reset();                                  // forget everything
bool d_gen(Rng &r, const Profile &p, Tok &t);    // choose an operation
bool d_valid(const Tok &t);                      // may it be executed now
void d_exec(const Tok &t);                       // execute it, log "ret"
bool d_close(Tok &t);                            // next operation that releases something

inline void on_alarm(int) { static const char m[] = "{\"e\":\"hang\",\"t\":1,\"h\":0}\n"; logflush(); ssize_t n = write(logfd(), m, sizeof m - 1); (void)n; _exit(4); }
inline std::string (*&extra())(const Tok &) { static std::string (*f)(const Tok &) = 0; return f; }   // more fields for the logged operation
inline std::string op_json(const Tok &t) { return t.json() + (extra() ? extra()(t) : std::string()); }
inline void run_one(const Tok &t0) { Tok t(t0); if(!d_valid(t)) return; event("op", op_json(t)); d_exec(t); }
inline void close_all() { Tok t; while(d_close(t)) run_one(t); }
inline void finish(long base) { event("end"); d_reset(); if(g_live != base) event("leak", kv("n", g_live - base)); }
} // namespace vf

void *operator new(std::size_t n) {
  if(vf::fault_hit()) throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); __atomic_add_fetch(&vf::g_live, 1, __ATOMIC_RELAXED); return p;
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { if(vf::fault_hit()) return 0; void *p = std::malloc(n ? n : 1); if(p) __atomic_add_fetch(&vf::g_live, 1, __ATOMIC_RELAXED); return p; }
void operator delete(void *p) noexcept { if(p) __atomic_sub_fetch(&vf::g_live, 1, __ATOMIC_RELAXED); std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if(p) __atomic_sub_fetch(&vf::g_live, 1, __ATOMIC_RELAXED); std::free(p); }

int main(int argc, char **argv) {
  using namespace vf;
  if(argc < 4) return 2;
  std::string mode = argv[1];
  logfd() = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
  signal(SIGALRM, on_alarm);
  logbuf().reserve(1 << 17);
  if(mode == "rand") {
    uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]); Profile P;
    for(int k = 5; k < argc; ++k) { char *e = strchr(argv[k], '='); if(e) P.w[std::string(argv[k], e)] = atoi(e + 1); }
    for(int i = P.get("first", 0); i < n; ++i) {
      alarm(20); d_reset(); long base = g_live;
      { Rng r(seed * 1000003ull + i);
        event("reset", kv("prog", i));
        int len = P.get("len", 12); len = len / 2 + r.below(len);
        for(int q = 0; q < len; ++q) { Tok t; for(int k = 0; k < 50; ++k) if(d_gen(r, P, t) && d_valid(t)) { run_one(t); break; } } }
      close_all();
      finish(base);
    }
  } else {
    std::vector<Tok> toks; FILE *f = fopen(argv[3], "r"); if(!f) return 2; char *line = 0; size_t cap = 0; Tok t;
    while(getline(&line, &cap, f) > 0) if(parse_tok(line, t)) toks.push_back(t);
    fclose(f); free(line);
    int first = 0; for(int k = 4; k < argc; ++k) first = atoi(strncmp(argv[k], "first=", 6) ? argv[k] : argv[k] + 6);
    int i = 0; size_t p = 0;
    while(p < toks.size()) {
      if(toks[p].k == "reset") ++p;
      size_t e = p; while(e < toks.size() && toks[e].k != "reset") ++e;
      if(i++ >= first) {
        alarm(20); d_reset(); long base = g_live;
        event("reset", kv("prog", i - 1));
        for(size_t q = p; q < e; ++q) if(toks[q].k == "op") run_one(toks[q]);
        close_all();
        finish(base);
      }
      p = e;
    }
  }
  d_reset();
  logflush();
  return 0;
}
#endif

// Driver for the mutexes (spec/Mutex.tla): real threads, told one after another what to do, and free running bursts.
#include "mini.hpp"
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <atomic>
#include <thread>
#include <memory>
#include <sched.h>
#include <time.h>
#include <algorithm>
using namespace vf; namespace bs = boost::signals2;
static const int NT = 4, NM = 3;
struct Lk { virtual ~Lk() {} virtual void lock() = 0; virtual bool try_lock() = 0; virtual void unlock() = 0; };
template<class M> struct LkT: Lk { M m; void lock() { m.lock(); } bool try_lock() { return m.try_lock(); } void unlock() { m.unlock(); } };
static Lk *M[NM + 1]; static int dummy[NM + 1]; static int owner[NM + 1];   // owner: as the driver has seen it
static long data_[NM + 1];
struct Cmd { std::string o; int m, v; };
struct Worker { std::thread th; std::atomic<int> st; Cmd c; int r; Worker(): st(0), r(0) {} };   // st: 0 idle, 1 told, 2 finished, 3 end
static Worker W[NT + 1]; static bool pend[NT + 1], started;
static void nap(long ns) { struct timespec t = {0, ns}; nanosleep(&t, 0); }
static int doit(const std::string &o, int m, int v) {
  if(o == "lock") { M[m]->lock(); return 0; } if(o == "try") return M[m]->try_lock() ? 1 : 0; if(o == "unlock") { M[m]->unlock(); return 0; }
  if(o == "rd") return int(data_[m]); data_[m] = v; return 0;
}
// a relaxed command counter would hide nothing from the thread sanitizer in the bursts; here the handshake orders all
static void serve(int t) { Worker &w = W[t]; int idle = 0; for(;;) { int s = w.st.load(std::memory_order_acquire); if(s == 3) return; if(s != 1) { if(++idle > 200) nap(20000); else sched_yield(); continue; } idle = 0; w.r = doit(w.c.o, w.c.m, w.c.v); w.st.store(2, std::memory_order_release); } }
static long now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000l + t.tv_nsec; }
static void done(int t) { const Cmd &c = W[t].c; pend[t] = false; if(!dummy[c.m]) { if(c.o == "lock" || (c.o == "try" && W[t].r == 1)) owner[c.m] = t; if(c.o == "unlock" && owner[c.m] == t) owner[c.m] = 0; } event("done", kv("th", t) + kv("r", W[t].r)); W[t].st.store(0, std::memory_order_release); }
static void settle() {
  long t0 = now(), quiet = now();
  for(;;) {
    bool due = false;
    for(int t = 1; t <= NT; ++t) if(pend[t]) {
      if(W[t].st.load(std::memory_order_acquire) == 2) { done(t); quiet = now(); }
    }
    int want[NM + 1] = {0}; for(int t = 1; t <= NT; ++t) if(pend[t]) { const Cmd &c = W[t].c; if(c.o != "lock" || dummy[c.m] || !owner[c.m]) due = true; (void)want; }
    bool any = false; for(int t = 1; t <= NT; ++t) any |= pend[t];
    if(!any) break;
    if(!due && now() - quiet > 1500000) break;       // what is left waits for a mutex that is held
    if(due && now() - t0 > 6000000000l) break;       // something does not return
    sched_yield();
  }
  std::string p; for(int t = 1; t <= NT; ++t) if(pend[t]) p += (p.empty() ? "" : ",") + std::to_string(t);
  event("settle", ",\"p\":[" + p + "]");
}
struct Rec { long tick; int th; bool call; const char *o; int m, v; };
static std::atomic<long> ticker;
static long tick() { return ticker.fetch_add(1, std::memory_order_relaxed); }   // no ordering between threads but what the mutexes give
static void burst(int t, uint64_t seed, int len, std::vector<Rec> *out) {
  Rng r(seed * 31 + t); int val = t * 1000;
  struct L { std::vector<Rec> *o; int t; int op(const char *k, int m, int v) { Rec a = {tick(), t, true, k, m, v}; o->push_back(a); int q = doit(k, m, v); Rec b = {tick(), t, false, k, m, q}; o->push_back(b); return q; } } x = {out, t};
  for(int i = 0; i < len; ++i) {
    int a = 1 + r.below(NM), b = 1 + r.below(NM); bool nest = r.chance(30);
    bool g = r.chance(60) ? (x.op("lock", a, 0), true) : x.op("try", a, 0) == 1;
    if(!g) continue;
    if(!dummy[a]) { x.op("rd", a, 0); x.op("wr", a, ++val); if(r.chance(30)) sched_yield(); x.op("rd", a, 0); }
    if(nest && b > a) { bool h = r.chance(50) ? (x.op("lock", b, 0), true) : x.op("try", b, 0) == 1; if(h) { if(!dummy[b]) { x.op("rd", b, 0); x.op("wr", b, ++val); } x.op("unlock", b, 0); } }
    else if(nest && !dummy[a]) x.op("try", a, 0);     // one's own: must fail
    x.op("unlock", a, 0);
  }
}
static void stress(const Tok &t) {
  int n = t.get("n"), len = t.get("len"); std::vector<std::vector<Rec> > R(n + 1);
  { NoFault nf; std::vector<std::thread> th; std::atomic<int> ready(0);
    for(int i = 1; i <= n; ++i) { R[i].reserve(len * 16 + 8); th.push_back(std::thread([&, i] { ++ready; while(ready.load(std::memory_order_relaxed) < n) sched_yield(); burst(i, t.get("sd"), len, &R[i]); })); }
    for(auto &q : th) q.join(); }
  std::vector<Rec> all; for(auto &v : R) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end(), [](const Rec &a, const Rec &b) { return a.tick < b.tick; });
  for(auto &q : all) if(q.call) event("call", kv("th", q.th) + ks("o", q.o) + kv("m", q.m) + kv("v", q.v)); else event("done", kv("th", q.th) + kv("r", q.v));
  event("settle", ",\"p\":[]");
}
static bool begun;
void vf::d_reset() {
  for(int t = 1; t <= NT; ++t) if(W[t].th.joinable()) { W[t].st.store(3); W[t].th.join(); W[t].st.store(0); }
  for(int m = 1; m <= NM; ++m) { delete M[m]; M[m] = 0; owner[m] = 0; data_[m] = 0; } begun = false;
}
static bool held(int t, int m) { return owner[m] == t; }
bool vf::d_gen(Rng &r, const Profile &p, Tok &t) {
  if(!begun) { t = Tok("op", "begin"); 
#ifdef NOP
    t.set("dm", 1);
#else
    t.set("dm", r.below(10) < 7 ? 0 : r.below(3));
#endif
    return true; }
  if(r.chance(p.get("stress", 8))) { for(int i = 1; i <= NT; ++i) if(pend[i]) return false; for(int m = 1; m <= NM; ++m) if(owner[m]) return false;
    t = Tok("op", "stress"); t.set("n", 2 + r.below(3)).set("len", 1 + r.below(p.get("burst", 3))).set("sd", r.below(1000000)); return true; }
  static const char *o[] = {"lock","try","unlock","rd","wr"}; static const int w[] = {30, 25, 25, 10, 10}; int q = r.below(100), k = 0; while(q >= w[k]) q -= w[k++];
  int th = 1 + r.below(NT), m = 1 + r.below(NM);
  t = Tok("op", o[k]); t.set("th", th).set("m", m).set("v", k == 4 ? 1 + r.below(1000) : 0); return true;
}
bool vf::d_valid(const Tok &t) {
  if((t.o == "begin") == begun) return false;
  if(t.o == "begin") return true;
  if(t.o == "stress") { for(int i = 1; i <= NT; ++i) if(pend[i]) return false; for(int m = 1; m <= NM; ++m) if(owner[m]) return false; return t.get("n") >= 1 && t.get("n") <= NT; }
  int th = t.get("th"), m = t.get("m"); if(th < 1 || th > NT || m < 1 || m > NM || pend[th]) return false;
  if(t.o == "unlock" || t.o == "rd" || t.o == "wr") return held(th, m) || (dummy[m] && t.o == "unlock");
  if(t.o == "lock") { if(held(th, m)) return false; if(!dummy[m]) for(int k = m; k <= NM; ++k) if(held(th, k)) return false; return true; }   // in order: nothing deadlocks
  return t.o == "try";
}
bool vf::d_close(Tok &t) { for(int m = 1; m <= NM; ++m) if(owner[m] && !pend[owner[m]]) { t = Tok("op", "unlock"); t.set("th", owner[m]).set("m", m).set("v", 0); return true; } return false; }
void vf::d_exec(const Tok &t) {
  if(t.o == "begin") {
    begun = true; int dm = t.get("dm");
    for(int m = 1; m <= NM; ++m) { dummy[m] = dm == 1 || (dm == 2 && m == NM); 
#ifdef NOP
      if(dummy[m] && m % 2) M[m] = new LkT<bs::dummy_mutex>; else M[m] = new LkT<bs::mutex>;
#else
      if(dummy[m]) M[m] = new LkT<bs::dummy_mutex>; else M[m] = new LkT<bs::mutex>;
#endif
    }
    for(int i = 1; i <= NT; ++i) W[i].th = std::thread(serve, i);
    return;
  }
  if(t.o == "stress") { stress(t); return; }
  int th = t.get("th"); Cmd c = {t.o, t.get("m"), t.get("v")}; W[th].c = c; pend[th] = true; W[th].st.store(1, std::memory_order_release);
  settle();
}

// Concurrent driver: small multi-threaded programs, executed under many schedules, chosen by a
// scheduler that lets one thread run at a time and switches at the operations of the mutex given
// to the library and at calls of user code.
//   conc script OUT FILE [first=I] [dfs=PREEMPTIONS] [cap=RUNS] [rnd=RUNS] [free=RUNS] [dec=0.1.2] [seed=S]
// FILE holds programs separated by "reset": operations with th=0 are executed first, by one thread;
// th=1..3 are the threads' operations in order; in=C (th=-1) is executed by the slot with name C when
// it is called for the first time, dt=C by the destructor of that slot's function, cb=1 by the
// combiner of the next emission.  nm is the name a connection is given.
// Every distinct log of events is written out, preceded by a "reset" with the schedule.
// -DCFG_MUTEX=1: signals2::mutex (threads run freely)
// The threads of a program are synchronized by nothing but the library: the scheduler uses relaxed
// atomic operations only, so the thread sanitizer sees the happens-before relation of the library.
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
#include <atomic>
#include <thread>
#include <set>
#include <signal.h>
#include <sched.h>
#ifndef CFG_MUTEX
#define CFG_MUTEX 0
#endif
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#define NOTS __attribute__((no_sanitize("thread"), noinline))
namespace bs = boost::signals2;
using namespace vf;
static const auto RLX = std::memory_order_relaxed;

// ---------------------------------------------------------------- live memory
static std::atomic<long> g_live(0);
static thread_local int tl_fault = -1;        // number of allocations or copies until one fails
static bool fault_hit2() { return tl_fault >= 0 && tl_fault-- == 0; }
void *operator new(std::size_t n) { if(fault_hit2()) throw std::bad_alloc(); void *p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); g_live.fetch_add(1, RLX); return p; }
void operator delete(void *p) noexcept { if(p) g_live.fetch_sub(1, RLX); std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if(p) g_live.fetch_sub(1, RLX); std::free(p); }

// ---------------------------------------------------------------- log of a run
static char RUN[1 << 20]; static std::atomic<long> runpos(0);
NOTS static void put(const char *s, long n) {
  long p = runpos.fetch_add(n, RLX); if(p + n >= long(sizeof RUN)) return;
  for(long i = 0; i < n; ++i) RUN[p + i] = s[i];
}
static thread_local int tl_t = 1, tl_held = 0, tl_nolog = 0;
static void event(const char *e, const std::string &rest = "") {
  std::string s = std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(tl_t) + ",\"h\":" + std::to_string(tl_held) + rest + "}\n";
  put(s.data(), long(s.size()));
}
static std::string kv(const char *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
struct NoFlt { int o; NoFlt(): o(tl_fault) { tl_fault = -1; } ~NoFlt() { tl_fault = o; } };

// ---------------------------------------------------------------- scheduler
static const int MAXT = 4;
struct Mutex0;
struct Sched {
  std::atomic<int> on, cur; int n; std::atomic<int> st[MAXT]; std::atomic<Mutex0*> wt[MAXT];     // st: 0 done, 1 ready
  size_t at; int budget, pre; int mode; uint64_t r; size_t points; int depthmode;   // mode: 0 dfs/replay, 1 random
} S;
struct Dec { int n, c; }; static Dec DEC[1 << 14]; static size_t ndec;
static thread_local int tl_id = -1;
struct Mutex0 {
  std::atomic<int> a; Mutex0(): a(0) {}
  ~Mutex0() { if(a.load(RLX)) event("badmutex", kv("w", 1)); }
  void lock(); void unlock(); bool try_lock();
private: Mutex0(const Mutex0 &); Mutex0 &operator=(const Mutex0 &);
};
static void flush_run(); static void die(const char *why, int rc) { event(why); flush_run(); logflush(); _exit(rc); }
// choose one of n alternatives (0: go on with the running thread, if `cont`)
NOTS static int below(int n) { uint64_t z = (S.r += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return int((z ^ (z >> 31)) % uint64_t(n)); }
NOTS static int choose(int n, bool cont) {
  S.points++;
  if(n <= 1) return 0;
  int c = 0;
  if(S.at < ndec) { c = DEC[S.at].c; if(c >= n) c = n - 1; }
  else if(ndec < sizeof DEC / sizeof *DEC) {
    int m = n;
    if(S.mode == 1) c = !cont ? below(n) : below(S.depthmode) == 0 ? 1 + below(n - 1) : 0;
    else if(cont && S.pre >= S.budget) m = 1;
    DEC[ndec].n = m; DEC[ndec].c = c; ++ndec;
  }
  if(cont && c) S.pre++;
  S.at++; return c;
}
NOTS static bool enabled(int i) { if(S.st[i].load(RLX) != 1) return false; Mutex0 *m = S.wt[i].load(RLX); return !m || m->a.load(RLX) == 0; }
NOTS static void waitfor(int me) { for(int k = 0; S.cur.load(RLX) != me; ++k) if(k > 50) sched_yield(); }
// let another thread run, perhaps
NOTS static void point() {
  int me = tl_id; if(me < 0 || !S.on.load(RLX)) return;
  int e[MAXT], n = 0; bool cont = enabled(me); if(cont) e[n++] = me;
  for(int i = 0; i < S.n; ++i) if(i != me && enabled(i)) e[n++] = i;
  if(n == 0) { for(int i = 0; i < S.n; ++i) if(S.st[i].load(RLX)) die("deadlock", 3); S.cur.store(-1, RLX); return; }
  int nx = e[choose(n, cont)];
  if(nx == me) return;
  S.cur.store(nx, RLX);
  if(S.st[me].load(RLX)) waitfor(me);
}
void Mutex0::lock() {
  if(tl_held > 0) { NoFlt nf; event("nest"); }
  if(tl_id >= 0 && S.on.load(RLX)) {
    S.wt[tl_id].store(0, RLX); point();
    while(a.load(RLX)) { S.wt[tl_id].store(this, RLX); point(); }
    S.wt[tl_id].store(0, RLX);
    a.exchange(1, std::memory_order_acquire);
  } else if(tl_id < 0) { if(a.exchange(1, std::memory_order_acquire)) die("deadlock", 3); }
  else while(a.exchange(1, std::memory_order_acquire)) sched_yield();
  ++tl_held;
}
bool Mutex0::try_lock() { if(a.exchange(1, std::memory_order_acquire)) return false; ++tl_held; return true; }
void Mutex0::unlock() { if(!a.load(RLX)) event("badmutex", kv("w", 2)); a.store(0, std::memory_order_release); --tl_held; point(); }

// ---------------------------------------------------------------- user types
static const int CANARY = 0x5AFE1234;
struct Res { int v, canary; explicit Res(int v_): v(v_), canary(CANARY) {} Res(const Res &o): v(o.v), canary(o.canary) {} Res &operator=(const Res &o) { v = o.v; canary = o.canary; return *this; } ~Res() { canary = 0; } };
static int val(const Res &r) { return r.canary == CANARY ? r.v : -777; }
struct X { int code; explicit X(int c): code(c) {} };
static const int EXPIRED = 99, NOMEM = 77;
static int user_slot(int nm, int c, int v, int self, int ret);
static void user_dtor(const char *ev, const char *key, int id, int nm);
struct Token { int nm, c, ret; Token(int nm_, int c_, int r): nm(nm_), c(c_), ret(r) {} ~Token() { user_dtor("sdtor", "c", c, nm); c = -1; } };
static int find_self(const bs::connection &conn, int nm, int c);
struct Fn {
  std::shared_ptr<Token> tok; int f;
  Fn(): f(0) {}
  Fn(const Fn &o): tok(o.tok), f(o.f) { if(fault_hit2()) throw std::bad_alloc(); }
  ~Fn() { if(tl_held > 0 && tok) { NoFlt nf; event("lk", kv("c", tok->c)); } }
  typedef Res result_type;
  Res operator()(int v) const { return Res(user_slot(tok->nm, tok->c, v, 0, tok->ret)); }
  Res operator()(const bs::connection &conn, int v) const { return Res(user_slot(tok->nm, tok->c, v, find_self(conn, tok->nm, tok->c), tok->ret)); }
  bool operator==(const Fn &o) const { return f == o.f; }
};
struct Obj { int o; explicit Obj(int o_): o(o_) {} ~Obj() { user_dtor("odtor", "ob", o, 0); o = -1; } };
struct Cmp { int k; Cmp(): k(0) {} explicit Cmp(int k_): k(k_) {} bool operator()(int a, int b) const { return k == 0 ? a < b : k == 1 ? a > b : (a % k) < (b % k); } };
struct Comb {
  typedef Res result_type; int id, canary;
  explicit Comb(int id_ = 0): id(id_), canary(CANARY) {}
  Comb(const Comb &o): id(o.id), canary(o.canary) { if(fault_hit2()) throw std::bad_alloc(); }
  ~Comb() { canary = 0; id = -5; }
  int ident() const { return canary == CANARY ? id : -778; }
  template<typename It> Res operator()(It first, It last) const;
};
#if CFG_MUTEX == 1
typedef bs::mutex Mtx;
#else
typedef Mutex0 Mtx;
#endif
typedef bs::signal<Res(int), Comb, int, Cmp, boost::function<Res(int)>, boost::function<Res(const bs::connection &, int)>, Mtx> Sig;

// ---------------------------------------------------------------- tables
// a foreign smart pointer, whose operations let other threads run
template<class T> struct FShared { std::shared_ptr<T> p; };
template<class T> struct FWeak {
  std::weak_ptr<T> w; FWeak(const std::weak_ptr<T> &x): w(x) {}
  FShared<T> lock() const { FShared<T> r; point(); r.p = w.lock(); point(); return r; }
  bool expired() const { point(); return w.expired(); }
};
namespace boost { namespace signals2 { template<typename T> struct weak_ptr_traits<FWeak<T> > { typedef FShared<T> shared_type; }; } }
static const int NH = 3, NB = 6, NM = 12, NO = 4, NK = 4;
struct CH { bs::connection c; int id; std::atomic<int> st; CH(): id(0), st(0) {} };    // st: 0 unused, 1 being connected, 2 there
struct OE { std::string kind; boost::shared_ptr<Obj> b; std::shared_ptr<Obj> s; boost::weak_ptr<Obj> wb; std::weak_ptr<Obj> ws; };
struct Prog { std::vector<Tok> setup, th[MAXT]; std::map<int, std::vector<Tok> > in, dt; std::vector<Tok> cb; std::string src; int n; };
static Prog *P;
struct World {
  Sig *sig[NH + 1]; CH con[NM + 1]; OE obj[NO + 1]; bs::shared_connection_block *blk[NB + 1]; bs::scoped_connection *hnd[NK + 1]; int hid[NK + 1];
  std::atomic<int> ncon, nobj; std::atomic<int> used[NM + 1], dused[NM + 1], cbused; std::atomic<int> own[NO + 1], left;
  World(): ncon(0), nobj(0), cbused(0), left(0) { for(int i = 0; i <= NH; ++i) sig[i] = 0; for(int i = 0; i <= NB; ++i) blk[i] = 0; for(int i = 0; i <= NK; ++i) hnd[i] = 0; for(int i = 0; i <= NM; ++i) { used[i] = 0; dused[i] = 0; } for(int i = 0; i <= NO; ++i) own[i] = 0; }
};
static World *W;
static int find_self(const bs::connection &conn, int nm, int c) {
  for(int i = 1; i <= NM; ++i) if(W->con[i].st.load(std::memory_order_acquire) == 2 && W->con[i].c == conn && !(conn == bs::connection())) return W->con[i].id;
  return W->con[nm].st.load(std::memory_order_acquire) == 2 || conn == bs::connection() ? 0 : c;
}
static void exec_op(const Tok &t);
static int user_slot(int nm, int c, int v, int self, int ret) {
  NoFlt nf;
  event("call", kv("c", c) + kv("v", v) + kv("self", self));
  point();
  if(P->in.count(nm) && W->used[nm].exchange(1, RLX) == 0) { std::vector<Tok> &q = P->in[nm]; for(size_t i = 0; i < q.size(); ++i) exec_op(q[i]); }
  if(ret < 0) { event("cthrow", kv("x", -ret)); if(-ret == EXPIRED) throw bs::expired_slot(); throw X(-ret); }
  event("cret", kv("v", ret));
  return ret;
}
static void user_dtor(const char *ev, const char *key, int id, int nm) {
  NoFlt nf;
  event(ev, kv(key, id));
  point();
  if(nm && P->dt.count(nm) && W->dused[nm].exchange(1, RLX) == 0) { std::vector<Tok> &q = P->dt[nm]; for(size_t i = 0; i < q.size(); ++i) exec_op(q[i]); }
  event((std::string(ev) + "E").c_str());
}
template<typename It> Res Comb::operator()(It first, It last) const {
  NoFlt nf;
  event("comb", kv("id", ident()) + kv("end", first == last));
  point();
  if(!P->cb.empty() && W->cbused.exchange(1, RLX) == 0) for(size_t i = 0; i < P->cb.size(); ++i) exec_op(P->cb[i]);
  int r = 0, n = 0;
  while(first != last && n++ < 50) {
    int x = 0; event("deref", ",\"m\":0");
    try { r = val(*first); } catch(bs::expired_slot &) { x = EXPIRED; } catch(X &e) { x = e.code; } catch(std::bad_alloc &) { x = NOMEM; } catch(...) { x = 88; }
    if(x) { event("derx", kv("x", x)); event("cend", kv("id", ident()) + kv("v", 0) + kv("x", x)); if(x == EXPIRED) throw bs::expired_slot(); if(x == NOMEM) throw std::bad_alloc(); throw X(x); }
    event("derr", kv("v", r));
    event("inc"); ++first; event("incr", kv("end", first == last));
  }
  event("cend", kv("id", ident()) + kv("v", r) + kv("x", 0));
  return Res(r);
}
struct FltScope { FltScope(const Tok &t) { if(t.get("flt")) tl_fault = t.get("fa"); } ~FltScope() { tl_fault = -1; } };
template<class SL> static void add_tracks(SL &sl, const Tok &t) {
  for(size_t i = 0; i < t.trk.size(); ++i) { OE &e = W->obj[t.trk[i]]; if(e.kind == "b") sl.track(e.wb); else if(e.kind == "f") sl.track_foreign(FWeak<Obj>(e.ws)); else sl.track_foreign(e.ws); }
}
static bs::connection do_connect(Sig &s, const Tok &t, int id) {
  int p = t.get("p"), g = t.get("g"); bs::connect_position pos = t.get("fr") ? bs::at_front : bs::at_back;
  if(t.kind == "c") {
    Sig::slot_type sl(*W->sig[t.get("gd")]); FltScope fs(t);
    return p == 1 ? s.connect(g, sl, pos) : s.connect(sl, pos);
  }
  Fn fn; fn.f = t.get("f"); fn.tok.reset(new Token(t.get("nm"), id, t.get("thr") ? -t.get("thr") : 100 + id));
  if(t.kind == "x") {
    Sig::extended_slot_type sl(fn); add_tracks(sl, t); fn.tok.reset(); FltScope fs(t);
    return p == 1 ? s.connect_extended(g, sl, pos) : s.connect_extended(sl, pos);
  }
  Sig::slot_type sl(fn); add_tracks(sl, t); fn.tok.reset(); FltScope fs(t);
  return p == 1 ? s.connect(g, sl, pos) : s.connect(sl, pos);
}
static int cid(const Tok &t) { int nm = t.get("nm"); return nm && W->con[nm].st.load(std::memory_order_acquire) == 2 ? W->con[nm].id : 0; }
// an object that belongs to a thread may only be used by it; programs are generated that way
static bool valid(const Tok &t) {
  const std::string &o = t.o; int h = t.get("hd"), nm = t.get("nm");
  if(o == "new") return h >= 1 && h <= NH && !W->sig[h];
  if(o == "connect") { if(nm < 1 || nm > NM || !(h >= 1 && h <= NH) || !W->sig[h]) return false; int z = 0; if(!W->con[nm].st.compare_exchange_strong(z, 1, RLX)) return false; return true; }
  if(t.a.size() && h) return h >= 1 && h <= NH && W->sig[h];
  if(o == "bnew") return t.get("b") >= 1 && t.get("b") <= NB && !W->blk[t.get("b")];
  if(o == "bdel" || o == "bblock" || o == "bunblock" || o == "bblocking") return W->blk[t.get("b")];
  if(o == "hnew") return !W->hnd[t.get("k")];
  if(o == "hdel" || o == "hdisc" || o == "hconn" || o == "hblk") return W->hnd[t.get("k")];
  if(o == "odrop") { int ob = t.get("ob"), z = 1; return ob >= 1 && ob <= NO && W->own[ob].compare_exchange_strong(z, 2, RLX); }
  return true;
}
static int run_op(const Tok &t, int id, int &x) {
  const std::string &o = t.o; int h = t.get("hd"), r = 0; Sig *s = h >= 1 && h <= NH ? W->sig[h] : 0;
  bs::connection conn; if(id && o != "connect") conn = W->con[t.get("nm")].c;
  if(o == "new") W->sig[h] = new Sig(Comb(t.get("cb")), Cmp(t.get("cmp")));
  else if(o == "del") { W->sig[h] = 0; delete s; }
  else if(o == "connect") {
    CH &k = W->con[t.get("nm")]; k.id = id;
    bs::connection c = do_connect(*s, t, id); { NoFlt nf; k.c = c; } k.st.store(2, std::memory_order_release);
  }
  else if(o == "setcomb") { Comb cb(t.get("cb")); FltScope fs(t); s->set_combiner(cb); }
  else if(o == "combq") { FltScope fs(t); Comb cb = s->combiner(); r = cb.ident(); }
  else if(o == "num") r = int(s->num_slots());
  else if(o == "empty") r = s->empty();
  else if(o == "discAll") s->disconnect_all_slots();
  else if(o == "discGrp") s->disconnect(t.get("g"));
  else if(o == "discFn") { Fn f; f.f = t.get("f"); s->disconnect(f); }
  else if(o == "disc") { if(t.get("via") == 2) { bs::scoped_connection sc(conn); } else if(t.get("via") == 1) { bs::connection k2(conn); conn = bs::connection(); k2.disconnect(); } else conn.disconnect(); }
  else if(o == "connected") r = conn.connected();
  else if(o == "blockedq") r = conn.blocked();
  else if(o == "bnew") W->blk[t.get("b")] = new bs::shared_connection_block(conn, t.get("i") != 0);
  else if(o == "bdel") { bs::shared_connection_block *b = W->blk[t.get("b")]; W->blk[t.get("b")] = 0; delete b; }
  else if(o == "bblock") W->blk[t.get("b")]->block();
  else if(o == "bunblock") W->blk[t.get("b")]->unblock();
  else if(o == "bblocking") r = W->blk[t.get("b")]->blocking();
  else if(o == "hnew") W->hnd[t.get("k")] = new bs::scoped_connection(conn);
  else if(o == "hdel") { bs::scoped_connection *k = W->hnd[t.get("k")]; W->hnd[t.get("k")] = 0; delete k; }
  else if(o == "hdisc") W->hnd[t.get("k")]->disconnect();
  else if(o == "hconn") r = W->hnd[t.get("k")]->connected();
  else if(o == "hblk") r = W->hnd[t.get("k")]->blocked();
  else if(o == "onew") { int i = id; OE &e = W->obj[i]; e.kind = t.kind; if(t.kind == "b") { e.b.reset(new Obj(i)); e.wb = e.b; } else { e.s = std::make_shared<Obj>(i); e.ws = e.s; } W->own[i] = 1; }
  else if(o == "odrop") { OE &e = W->obj[t.get("ob")]; if(e.kind == "b") { boost::shared_ptr<Obj> p; p.swap(e.b); p.reset(); } else { std::shared_ptr<Obj> p; p.swap(e.s); p.reset(); } }
  else if(o == "emit") {
    try { FltScope fs(t); Res q = t.get("cst") ? (*const_cast<const Sig*>(s))(t.get("v")) : (*s)(t.get("v")); r = val(q); }
    catch(bs::expired_slot &) { x = EXPIRED; } catch(X &e) { x = e.code; } catch(std::bad_alloc &) { x = NOMEM; } catch(...) { x = 88; }
  }
  else event("badop");
  return r;
}
static void exec_op(const Tok &t0) {
  NoFlt nf; Tok t(t0);
  if(!valid(t)) return;
  for(size_t i = 0; i < t.trk.size();) if(t.trk[i] < 1 || t.trk[i] > W->nobj.load(RLX)) t.trk.erase(t.trk.begin() + i); else ++i;
  int id = 0; Tok l(t.k, t.o); l.kind = t.kind; l.trk = t.trk; l.has_trk = t.has_trk;
  for(size_t i = 0; i < t.a.size(); ++i) if(t.a[i].first != "th" && t.a[i].first != "in" && t.a[i].first != "dt" && t.a[i].first != "nm" && t.a[i].first != "thr" && t.a[i].first != "incb") l.a.push_back(t.a[i]);
  l.set("flt", t.get("flt"));
  point();
  if(t.o == "connect") { l.set("gd", t.get("gd")); l.has_trk = true; }
  if(t.o == "onew") { id = W->nobj.fetch_add(1, RLX) + 1; l.set("ob", id); }
  else if(t.o != "connect" && (t.get("nm") || t.o == "disc" || t.o == "connected" || t.o == "blockedq" || t.o == "bnew" || t.o == "hnew")) { id = cid(t); l.set("c", id); }
#if CFG_MUTEX == 1
  static std::atomic<int> idlock(0);           // identities must be logged in order
  if(t.o == "connect") while(idlock.exchange(1, RLX)) sched_yield();
#endif
  if(t.o == "connect") { id = W->ncon.fetch_add(1, RLX) + 1; l.set("c", id); }
  event("op", l.json());
#if CFG_MUTEX == 1
  if(t.o == "connect") idlock.store(0, RLX);
#endif
  int x = 0, r = 0;
  try { r = run_op(t, id, x); } catch(bs::expired_slot &) { x = EXPIRED; } catch(std::bad_alloc &) { x = NOMEM; } catch(X &e) { x = e.code; } catch(...) { x = 88; }
  tl_fault = -1;
  if(tl_id < 0 && t.o == "connect" && W->con[t.get("nm")].st.load(RLX) == 1) W->con[t.get("nm")].st.store(3, RLX);
  event("ret", kv("r", r) + kv("x", x));
}

// ---------------------------------------------------------------- running
static int prog_no; static std::string dec_str() { std::string s; size_t n = ndec; while(n && DEC[n - 1].c == 0) --n; for(size_t i = 0; i < n; ++i) s += (i ? "." : "") + std::to_string(DEC[i].c); return s; }
static std::set<uint64_t> *seen; static long distinct;
NOTS static uint64_t hash_run(long n) { uint64_t h = 1469598103934665603ull; for(long i = 0; i < n; ++i) h = (h ^ (unsigned char)RUN[i]) * 1099511628211ull; return h; }
NOTS static void flush_run() {
  long n = runpos.load(RLX); if(n > long(sizeof RUN)) n = 0;
  std::string head = "{\"e\":\"reset\",\"t\":1,\"h\":0" + kv("prog", prog_no) + ",\"dec\":\"" + dec_str() + "\",\"src\":\"" + P->src + "\"}\n";
  std::string b; b.reserve(n); for(long i = 0; i < n; ++i) b += RUN[i];
  logbuf() += head; logbuf() += b;
  runpos.store(0, RLX);
}
static void on_death() { if(runpos.load(RLX)) { flush_run(); } logflush(); }
static void on_alarm(int) { static const char m[] = "{\"e\":\"hang\",\"t\":1,\"h\":0}\n"; put(m, sizeof m - 1); flush_run(); logflush(); _exit(4); }
static void worker(int i) {
  tl_id = i; tl_t = i + 1; tl_held = 0;
  if(S.on.load(RLX)) waitfor(i);
  else { W->left.fetch_add(1, RLX); while(W->left.load(RLX) < P->n) {} }      // start together
  for(size_t k = 0; k < P->th[i].size(); ++k) exec_op(P->th[i][k]);
  S.st[i].store(0, RLX);
  point();
}
static void closing() {
  tl_t = 1; Tok t;
  for(int h = 1; h <= NH; ++h) if(W->sig[h]) { t = Tok("op", "num"); t.set("hd", h); exec_op(t); }
  for(int i = 1; i <= NM; ++i) if(W->con[i].st.load(RLX) == 2) { t = Tok("op", "connected"); t.set("nm", i); exec_op(t); }
  for(int h = 1; h <= NH; ++h) if(W->sig[h]) { t = Tok("op", "emit"); t.set("hd", h).set("v", 900 + h); exec_op(t); t = Tok("op", "combq"); t.set("hd", h); exec_op(t); }
  for(int b = 1; b <= NB; ++b) if(W->blk[b]) { t = Tok("op", "bdel"); t.set("b", b); exec_op(t); }
  for(int k = 1; k <= NK; ++k) if(W->hnd[k]) { t = Tok("op", "hdel"); t.set("k", k); exec_op(t); }
  for(int h = 1; h <= NH; ++h) if(W->sig[h]) { t = Tok("op", "emit"); t.set("hd", h).set("v", 910 + h); exec_op(t); }
  for(int h = 1; h <= NH; ++h) if(W->sig[h]) { t = Tok("op", "del"); t.set("hd", h); exec_op(t); }
  for(int o = 1; o <= NO; ++o) if(W->own[o].load(RLX) == 1) { t = Tok("op", "odrop"); t.set("ob", o); exec_op(t); }
  for(int b = 1; b <= NB; ++b) if(W->blk[b]) { t = Tok("op", "bdel"); t.set("b", b); exec_op(t); }
  for(int k = 1; k <= NK; ++k) if(W->hnd[k]) { t = Tok("op", "hdel"); t.set("k", k); exec_op(t); }
}
static void one_run(bool fr) {
  alarm(20);
  runpos.store(0, RLX); S.at = 0; S.pre = 0; S.points = 0; S.on.store(0, RLX);
  long base = g_live.load(RLX);
  W = new World; tl_t = 1; tl_id = -1; tl_held = 0;
  for(size_t i = 0; i < P->setup.size(); ++i) exec_op(P->setup[i]);
  S.n = P->n; for(int i = 0; i < MAXT; ++i) { S.st[i].store(i < P->n, RLX); S.wt[i].store(0, RLX); }
  S.cur.store(-1, RLX); S.on.store(!fr, RLX);
  { std::vector<std::thread> v; for(int i = 0; i < P->n; ++i) v.push_back(std::thread(worker, i));
    if(!fr) { // the first thread is a choice as well
      int f = P->n > 1 ? choose(P->n, false) : 0; S.cur.store(f, RLX); }
    for(size_t i = 0; i < v.size(); ++i) v[i].join(); }
  S.on.store(0, RLX);
  closing();
  event("end");
  delete W; W = 0;
  if(g_live.load(RLX) != base) event("leak", kv("n", g_live.load(RLX) - base));
  alarm(0);
  long n = runpos.load(RLX);
  if(n >= long(sizeof RUN)) { runpos.store(0, RLX); return; }
  if(seen->insert(hash_run(n)).second) { ++distinct; flush_run(); if(logbuf().size() > 60000) logflush(); } else runpos.store(0, RLX);
}
static bool backtrack() {
  while(ndec) { Dec &d = DEC[ndec - 1]; if(d.c + 1 < d.n) { ++d.c; return true; } --ndec; }
  return false;
}
static int arg(int argc, char **argv, const char *k, int d) { size_t n = strlen(k); for(int i = 4; i < argc; ++i) if(!strncmp(argv[i], k, n) && argv[i][n] == '=') return atoi(argv[i] + n + 1); return d; }
int main(int argc, char **argv) {
  if(argc < 4) return 2;
  logfd() = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644); logthrough() = false;
  signal(SIGALRM, on_alarm);
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_death);
#endif
  std::vector<Prog*> ps(1, new Prog); FILE *f = fopen(argv[3], "r"); if(!f) return 2; char *line = 0; size_t cap = 0; Tok t;
  while(getline(&line, &cap, f) > 0) {
    size_t n = strlen(line); while(n && line[n - 1] == '\n') line[--n] = 0;
    if(!parse_tok(line, t)) continue;
    if(t.k == "reset") { if(ps.back()->src.size()) ps.push_back(new Prog); continue; }
    Prog &p = *ps.back(); p.src += (p.src.empty() ? "" : ";") + std::string(line);
    if(t.get("in")) p.in[t.get("in")].push_back(t); else if(t.get("dt")) p.dt[t.get("dt")].push_back(t); else if(t.get("incb")) p.cb.push_back(t);
    else { int th = t.get("th"); if(th <= 0) p.setup.push_back(t); else p.th[th - 1].push_back(t); }
  }
  fclose(f); free(line);
  int first = arg(argc, argv, "first", 0), dfs = arg(argc, argv, "dfs", 2), maxruns = arg(argc, argv, "cap", 200), rnd = arg(argc, argv, "rnd", 50), fr = arg(argc, argv, "free", 0), seed = arg(argc, argv, "seed", 1);
  const char *decs = 0; for(int i = 4; i < argc; ++i) if(!strncmp(argv[i], "dec=", 4)) decs = argv[i] + 4;
  for(prog_no = 0; prog_no < int(ps.size()); ++prog_no) {
    if(prog_no < first) continue;
    P = ps[prog_no]; if(P->src.empty()) continue;
    P->n = 0; for(int i = 0; i < MAXT; ++i) if(!P->th[i].empty()) P->n = i + 1;
    std::set<uint64_t> sn; seen = &sn; distinct = 0;
    if(decs) { S.mode = 0; S.budget = 1000; ndec = 0; const char *c = decs; while(*c) { DEC[ndec].n = 99; DEC[ndec++].c = int(strtol(c, (char**)&c, 10)); if(*c) ++c; } one_run(false); continue; }
#if CFG_MUTEX == 0
    int left = maxruns;
    for(int b = 0; b <= dfs && left > 0; ++b) { S.mode = 0; S.budget = b; ndec = 0; do { one_run(false); } while(--left > 0 && backtrack()); if(P->n <= 1) left = 0; }
    for(int i = 0; i < rnd && P->n > 1; ++i) { S.mode = 1; ndec = 0; S.r = seed * 7919ull + prog_no * 131ull + i; below(2); S.depthmode = 2 + below(8); one_run(false); }
#endif
    ndec = 0;
    for(int i = 0; i < fr; ++i) one_run(true);
  }
  logflush();
  return 0;
}

// Sequential driver: runs programs of operations (generated from a seed, or read from a script
// produced from the specification) against the real library and logs every observable event.
//   seq rand OUT SEED N PROFILE...   N programs; PROFILE: key=weight pairs
//   seq script OUT FILE              programs separated by "reset"
// Build options: -DCFG_MUTEX=0 checked | 1 signals2::mutex | 2 dummy_mutex | 3 checked, through signal_type
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/signal_type.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <memory>
#include <signal.h>
#ifndef CFG_MUTEX
#define CFG_MUTEX 0
#endif
#ifndef CFG_GROUP
#define CFG_GROUP 0
#endif
namespace bs = boost::signals2;
using namespace vf;

// ---------------------------------------------------------------- allocation (fault injection, live count)
static long g_live = 0;   // blocks currently allocated through operator new
static bool fault_hit() {
  Fault &f = fault(); if(!f.on) return false;
  long k = f.seen++; return f.sticky ? k >= f.at : k == f.at;
}
void *operator new(std::size_t n) {
  if(fault_hit()) throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++g_live; return p;
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { if(fault_hit()) return 0; void *p = std::malloc(n ? n : 1); if(p) ++g_live; return p; }
void operator delete(void *p) noexcept { if(p) --g_live; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if(p) --g_live; std::free(p); }

// ---------------------------------------------------------------- mutex
static int g_held = 0, g_locks = 0;   // g_locks: how often the mutex type has been used
static void event(const char *e, const std::string &rest);
struct CheckedMutex {
  bool owned; CheckedMutex(): owned(false) {}
  ~CheckedMutex() { if(owned) { event("badmutex", ",\"w\":1"); } }
  void lock() { if(owned) { event("deadlock", ""); logflush(); _exit(3); } owned = true; ++g_held; ++g_locks; }
  bool try_lock() { if(owned) return false; owned = true; ++g_held; return true; }
  void unlock() { if(!owned) event("badmutex", ",\"w\":2"); owned = false; --g_held; }
private: CheckedMutex(const CheckedMutex&); CheckedMutex &operator=(const CheckedMutex&);
};

static void event(const char *e, const std::string &rest) {
  NoFault nf;
  logline(std::string("{\"e\":\"") + e + "\",\"t\":1,\"h\":" + std::to_string(g_held) + rest + "}");
}
static std::string kv(const char *k, int v) { return std::string(",\"") + k + "\":" + std::to_string(v); }

// ---------------------------------------------------------------- user types
static const int CANARY = 0x5AFE1234;
struct Res {
  int v; int canary;
  explicit Res(int v_): v(v_), canary(CANARY) {}
  Res(const Res &o): v(o.v), canary(o.canary) {}
  Res &operator=(const Res &o) { v = o.v; canary = o.canary; return *this; }
  ~Res() { canary = 0; }
};
static int val(const Res &r) { return r.canary == CANARY ? r.v : -777; }
struct X { int code; explicit X(int c): code(c) {} };
static const int EXPIRED = 99, BADWEAK = 98, NOMEM = 77;
static void throw_code(int x) { if(x == EXPIRED) throw bs::expired_slot(); if(x == BADWEAK) throw boost::bad_weak_ptr(); if(x == NOMEM) throw std::bad_alloc(); throw X(x); }

struct Arg { int v; };   // passed by const reference

struct Obj;  struct TObj;
enum Ctx { MAIN, SLOT, DTOR, COMB };
static int user_slot(int c, int v, int self);     // runs the body of a slot
static void user_dtor(const char *ev, const char *key, int id);
static Res user_comb_begin();

struct Token { int c; explicit Token(int c_): c(c_) {} ~Token() { user_dtor("sdtor", "c", c); } };

static int find_self(const bs::connection &conn, int hint);
#ifdef CFG_FNT
static void check_fn(bool ext);
#else
static void check_fn(bool) {}
#endif
struct Fn {
  std::shared_ptr<Token> tok; int c, f;
  Fn(int c_, int f_, bool real): tok(real ? new Token(c_) : 0), c(c_), f(f_) {}
  Fn(const Fn &o): tok(o.tok), c(o.c), f(o.f) { if(fault_hit()) throw std::bad_alloc(); }
  ~Fn() { if(g_held > 0 && tok) event("lk", kv("c", c)); }
  typedef Res result_type;
  Res operator()(int v) const { check_fn(false); return Res(user_slot(c, v, 0)); }
  Res operator()(int v, TObj &) const { return Res(user_slot(c, v, 0)); }
  template<typename P> Res operator()(int v, TObj &, P *) const { return Res(user_slot(c, v, 0)); }   // trackable objects, signals, functions, nothing
  Res operator()(const bs::connection &conn, int v) const { check_fn(true); return Res(user_slot(c, v, find_self(conn, c))); }
  Res operator()(const bs::connection &conn, int v, TObj &) const { return Res(user_slot(c, v, find_self(conn, c))); }
  bool operator==(const Fn &o) const { return f == o.f; }
};
struct Obj { int o; explicit Obj(int o_): o(o_) {} ~Obj() { user_dtor("odtor", "ob", o); o = -1; } };
// trackable objects may be bound, pointed to, or be the function object itself; in a copy made by
// the library o is 0
struct TObj: public bs::trackable {
  int o; Fn *fn; explicit TObj(int o_): o(o_), fn(0) {}
  TObj(const TObj &x): bs::trackable(x), o(0), fn(x.fn ? new Fn(*x.fn) : 0) {}
  ~TObj() { if(o) user_dtor("odtor", "ob", o); delete fn; }
  typedef Res result_type;
  Res operator()(int v) const { return (*fn)(v); }
  Res operator()(const bs::connection &conn, int v) const { return (*fn)(conn, v); }
  Res mem(Fn f, int v) { return f(v); }
  void assign(const TObj &x) { bs::trackable::operator=(x); }
  bool operator==(const TObj &x) const { return fn && x.fn && *fn == *x.fn; }
private:
  TObj &operator=(const TObj &);
};
// assignment of the trackable base of two objects
static void tobj_assign(TObj &a, const TObj &b) { a.assign(b); }

#if CFG_GROUP == 0
typedef int Grp;
static Grp mkgrp(int g) { return g; }
static int grpval(const Grp &g) { return g; }
#else
struct Grp { int v; Grp(): v(-1000) {} explicit Grp(int v_): v(v_) {} };
static Grp mkgrp(int g) { return Grp(g); }
static int grpval(const Grp &g) { return g.v; }
#endif
struct Cmp {
  int k; Cmp(): k(0) {} explicit Cmp(int k_): k(k_) {}
  bool operator()(const Grp &a_, const Grp &b_) const { int a = grpval(a_), b = grpval(b_); return k == 0 ? a < b : k == 1 ? a > b : (a % k) < (b % k); }
};
struct Comb;
#if CFG_MUTEX == 0 || CFG_MUTEX == 3
typedef CheckedMutex Mtx;
#elif CFG_MUTEX == 1
typedef bs::mutex Mtx;
#else
typedef bs::dummy_mutex Mtx;
#endif
struct Comb {
  typedef Res result_type;
  int id, canary;
  explicit Comb(int id_ = 0): id(id_), canary(CANARY) {}
  Comb(const Comb &o): id(o.id), canary(o.canary) { if(fault_hit()) throw std::bad_alloc(); }
  ~Comb() { canary = 0; id = -5; }
  int ident() const { return canary == CANARY ? id : -778; }
  template<typename It> Res operator()(It first, It last) const;
};
#ifdef CFG_FNT
// slot function types of the user's, which notice calls made without them
static int g_sf = 0, g_esf = 0;
struct Within { int &n; explicit Within(int &n_): n(n_) { ++n; } ~Within() { --n; } };
struct SF: public boost::function<Res(int)> {
  typedef boost::function<Res(int)> base;
  SF() {} template<typename F> SF(const F &f): base(f) {} SF(const SF &o): base(static_cast<const base&>(o)) {}
  Res operator()(int v) const { Within w(g_sf); return base::operator()(v); }
};
struct ESF: public boost::function<Res(const bs::connection &, int)> {
  typedef boost::function<Res(const bs::connection &, int)> base;
  ESF() {} template<typename F> ESF(const F &f): base(f) {} ESF(const ESF &o): base(static_cast<const base&>(o)) {}
  Res operator()(const bs::connection &conn, int v) const { Within w(g_esf); return base::operator()(conn, v); }
};
#if CFG_FNT == 1
typedef bs::signal_type<Res(int), bs::keywords::extended_slot_function_type<ESF>, bs::keywords::mutex_type<Mtx>, bs::keywords::slot_function_type<SF>,
  bs::keywords::group_type<Grp>, bs::keywords::combiner_type<Comb>, bs::keywords::group_compare_type<Cmp> >::type Sig;
#else
typedef bs::signal<Res(int), Comb, Grp, Cmp, SF, ESF, Mtx> Sig;
#endif
static_assert(std::is_same<Sig::slot_function_type, SF>::value && std::is_same<Sig::extended_slot_function_type, ESF>::value, "slot functions");
static_assert(std::is_same<Sig::combiner_type, Comb>::value && std::is_same<Sig::group_type, Grp>::value && std::is_same<Sig::group_compare_type, Cmp>::value, "types");
static void check_fn(bool ext) { if(!g_sf || (ext && !g_esf)) event("crash", ",\"why\":\"slot called without the slot function type it was given\""); }
#elif CFG_MUTEX == 3
typedef bs::signal_type<Res(int), bs::keywords::mutex_type<Mtx>, bs::keywords::group_compare_type<Cmp>,
  bs::keywords::combiner_type<Comb>, bs::keywords::group_type<Grp> >::type Sig;
#else
typedef bs::signal<Res(int), Comb, Grp, Cmp, boost::function<Res(int)>, boost::function<Res(const bs::connection &, int)>, Mtx> Sig;
#endif

// ---------------------------------------------------------------- tables
static const int NH = 4, NB = 4, NK = 5;
struct Hnd { std::string ty; bs::connection *p; int pin; Hnd(): p(0), pin(0) {} };
struct OE { std::string kind; boost::shared_ptr<Obj> b; std::shared_ptr<Obj> s; boost::weak_ptr<Obj> wb; std::weak_ptr<Obj> ws; TObj *t; bool own; OE(): t(0), own(false) {} };
struct World {
  Sig *sigs[NH + 1]; int pin[NH + 1]; int born[NH + 1];
  std::vector<bs::connection> conns; std::vector<int> cfn; std::vector<std::string> ckind; std::vector<int> csig; std::vector<char> crdy;
  bs::shared_connection_block *blks[NB + 1]; int bc[NB + 1];
  bool raw[NH + 1], rawdead;   // signals called through references
  Hnd hnds[NK + 1];
  std::vector<OE> objs;
  int depth; int nev; int emits;
  World() { reset(); }
  void reset() {
    for(int i = 0; i <= NH; ++i) { sigs[i] = 0; pin[i] = 0; }
    for(int i = 0; i <= NB; ++i) blks[i] = 0, bc[i] = 0;
    for(int i = 0; i <= NH; ++i) raw[i] = false;
    rawdead = false;
    for(int i = 0; i <= NK; ++i) hnds[i] = Hnd();
    std::vector<bs::connection>(1).swap(conns); std::vector<int>(1).swap(cfn); std::vector<std::string>(1).swap(ckind);
    std::vector<int>(1).swap(csig); std::vector<char>(1, 1).swap(crdy); std::vector<OE>(1).swap(objs);
    depth = 0; nev = 0; emits = 0;
  }
};
static World W;
// identity of the connection given to an extended slot; a slot can run before the connect()
// that made it has returned: the connection is then remembered and compared with what connect() returns
static int find_self(const bs::connection &conn, int hint) {
  NoFault nf;
  if(!W.crdy[hint]) { if(W.conns[hint] == bs::connection()) W.conns[hint] = conn; return W.conns[hint] == conn ? hint : 0; }
  for(size_t i = 1; i < W.conns.size(); ++i) if(W.conns[i] == conn && !(conn == bs::connection())) return int(i);
  return 0;
}

// ---------------------------------------------------------------- decision sources
struct Source { virtual ~Source() {} virtual Tok next(Ctx c, int info) = 0; };
static Source *SRC;

struct ScriptSource: Source {
  std::vector<Tok> toks; size_t i;
  ScriptSource(): i(0), inc_next(false) {}
  bool at_end() const { return i >= toks.size() || toks[i].k == "reset"; }
  Tok next(Ctx c, int atend) {
    while(!at_end()) {
      Tok &t = toks[i];
      if(t.k == "op") { ++i; return t; }
      switch(c) {
      case MAIN: ++i; continue;               // out of step: skip
      case SLOT: if(t.k == "cret" || t.k == "cthrow") { ++i; return t; } { Tok r("cret"); r.set("v", 0); return r; }
      case DTOR: if(t.k == "sdtorE" || t.k == "odtorE") { ++i; return t; } return Tok("sdtorE");
      case COMB:
        if(t.k == "cend") { ++i; return t; }
        if((t.k == "deref" || t.k == "inc") && !atend) { ++i; return t; }
        return visit(atend);
      }
    }
    if(c == SLOT) { Tok r("cret"); r.set("v", 0); return r; }
    if(c == DTOR) return Tok("sdtorE");
    if(c == COMB) return visit(atend);
    return Tok("stop");
  }
  bool inc_next; 
  Tok visit(int atend) {   // beyond the script: the rest of the sequence is looked at
    if(atend || W.nev > 400 || W.depth > 9) { Tok r("cend"); r.set("v", 0).set("x", 0); return r; }
    inc_next = !inc_next; return Tok(inc_next ? "deref" : "inc");
  }
};

struct Profile {
  std::map<std::string,int> w;
  int get(const std::string &k, int d) const { std::map<std::string,int>::const_iterator i = w.find(k); return i == w.end() ? d : i->second; }
};
static const char *OPS[] = {"new","del","move","massign","swap","connect","setcomb","combq","null","eqh","num","empty","discAll","discGrp","discFn","discSig",
  "disc","connected","blockedq","bnew","bcopy","bassign","bdel","bblock","bunblock","bblocking","onew","ocopy","oassign","odrop","emit","hnew","hset","hcpy","hmov","has","hmas","hswp","hdel","hrel","heq","hlt","hdisc","hconn","hblk"};
static const int OPW[] = {3,1,1,1,1,24,3,1,1,1,4,2,1,3,3,1,
  9,3,2,3,1,1,2,2,2,1,4,1,1,4,16,1,1,0,0,0,0,0,1,1,0,0,0,0,0};
static bool valid(const Tok &t);
static void handles();

struct RandSource: Source {
  Rng r; Profile P; int maxev; std::vector<int> cum; bool closing;
  RandSource(uint64_t seed, const Profile &p): r(seed), P(p), closing(false) {
    maxev = P.get("maxev", 110);
    int s = 0; for(size_t i = 0; i < sizeof(OPW) / sizeof(OPW[0]); ++i) { s += P.get(OPS[i], OPW[i]); cum.push_back(s); }
  }
  int anysig(int need) { // need 0: any existing, 1: non-null, 2: free slot
    int c[NH + 1], n = 0;
    for(int h = 1; h <= NH; ++h) { bool ok = need == 2 ? W.sigs[h] == 0 : W.sigs[h] != 0 && (need == 0 || !W.sigs[h]->null()); if(need == 2 && W.pin[h]) ok = false; if(ok) c[n++] = h; }
    return n ? c[r.below(n)] : 0;
  }
  int anyconn() { for(int i = 0; i < 8; ++i) { int c = anyconn0(); if(!c || W.crdy[c]) return c; } return 0; }
  int anyconn0() { int n = int(W.conns.size()) - 1; if(!n) return 0; if(r.chance(70)) { int k = r.below(n < 6 ? n : 6); return n - k; } return 1 + r.below(n); }
  int tobj() { int n = int(W.objs.size()) - 1; for(int i = 0; i < 8 && n > 0; ++i) { int b = 1 + r.below(n); if(W.objs[b].t) return b; } return 0; }
  int hfree() { for(int i = 0; i < 6; ++i) { int k = 1 + r.below(NK); if(!W.hnds[k].p && !W.hnds[k].pin) return k; } return 0; }
  int hany() { for(int i = 0; i < 6; ++i) { int k = 1 + r.below(NK); if(W.hnds[k].p && !W.hnds[k].pin) return k; } return 0; }
  std::string htype() { return r.chance(P.get("scoped", 50)) ? "s" : "c"; }
  bool gen(Tok &t) { if(!gen0(t)) return false;
    static const char *fo[] = {"new","combq","num","empty","connected","blockedq","bnew","bcopy","bassign","bblock","emit","hconn","hblk"};
    int ef = P.get("efault", 0);
    if(ef) for(size_t i = 0; i < sizeof fo / sizeof *fo; ++i) if(t.o == fo[i] && r.chance(ef)) t.set("flt", 1 + r.below(2)).set("fa", r.below(r.chance(50) ? 3 : 14));
    return true; }
  bool gen0(Tok &t) {
    int x = r.below(cum.back()); size_t k = 0; while(cum[k] <= x) ++k;
    std::string o = OPS[k]; t = Tok("op", o); t.set("flt", 0);
    int h, g;
    if(o == "new") { h = anysig(2); if(!h) return false; int nlive = 0; for(int i = 1; i <= NH; ++i) nlive += W.sigs[i] != 0; if(nlive >= P.get("nsig", 2) && !r.chance(10)) return false;
      t.set("hd", h).set("cb", r.below(50)).set("cmp", r.chance(P.get("cmp0", 60)) ? 0 : 1 + r.below(3)); return true; }
    if(o == "del") { h = anysig(0); if(!h || W.pin[h] || (W.depth && P.get("raw", 0))) return false; t.set("hd", h); return true; }
    if(o == "move") { h = anysig(2); g = anysig(0); if(!h || !g || W.pin[g]) return false; t.set("hd", h).set("gd", g); return true; }
    if(o == "massign" || o == "swap") { h = anysig(0); g = anysig(0); if(!h || !g || W.pin[h] || W.pin[g]) return false; t.set("hd", h).set("gd", g); return true; }
    if(o == "connect") {
      h = anysig(1); if(!h) return false; if(int(W.conns.size()) > P.get("maxconn", 25)) return false;
      int p = r.chance(P.get("grouped", 45)) ? 1 : r.chance(70) ? 2 : 0;
      t.set("hd", h).set("c", int(W.conns.size())).set("p", p).set("g", p == 1 ? r.below(P.get("ngrp", 5)) : 0).set("fr", p == 0 ? 1 : p == 2 ? 0 : r.below(2)).set("f", 1 + r.below(P.get("nfn", 6))).set("gd", 0);
      t.has_trk = true;
      std::vector<int> tv, ov;
      if(r.chance(P.get("trkpct", 30)) && W.objs.size() > 1) { int n = r.chance(P.get("bigtrk", 3)) ? 9 + r.below(6) : 1 + r.below(3);
        for(int i = 0; i < n; ++i) { int b = 1 + r.below(int(W.objs.size()) - 1); OE &oe = W.objs[b];
          if(oe.kind == "t") { if(oe.own && tv.size() < 2) tv.push_back(b); } else if(oe.own || r.chance(15)) ov.push_back(b); } }
      int kk = r.below(100), px = P.get("ext", 20), pc = P.get("chain", 8);
      if(kk < pc && (g = anysig(1)) != 0) { t.kind = "c"; t.set("gd", g).set("f", r.chance(P.get("raw", 0)) ? 1 + r.below(3) : 0); tv.clear(); ov.clear(); }
      else if(kk < pc + px) { t.kind = "x"; if(tv.size() > 1) tv.resize(1); }
      else t.kind = "p";
      if(!tv.empty()) t.set("f", 1000 + int(W.conns.size()));
      t.trk = tv; t.trk.insert(t.trk.end(), ov.begin(), ov.end());
      if(r.chance(P.get("fault", 0))) t.set("flt", 1 + r.below(2)).set("fa", r.below(30));
      return true;
    }
    if(o == "setcomb") { h = anysig(1); if(!h) return false; t.set("hd", h).set("cb", 50 + r.below(50)); if(r.chance(P.get("fault", 0))) t.set("flt", 1 + r.below(2)).set("fa", r.below(10)); return true; }
    if(o == "combq") { h = anysig(1); if(!h) return false; t.set("hd", h); return true; }
    if(o == "null" || o == "num" || o == "empty" || o == "discAll") { h = anysig(0); if(!h) return false; t.set("hd", h); return true; }
    if(o == "eqh") { h = anysig(0); g = anysig(0); if(!h) return false; t.set("hd", h).set("gd", g); return true; }
    if(o == "discGrp") { h = anysig(0); if(!h) return false; t.set("hd", h).set("g", r.below(P.get("ngrp", 5))); return true; }
    if(o == "discFn") { h = anysig(0); if(!h) return false; t.set("hd", h).set("f", 1 + r.below(P.get("nfn", 6))); return true; }
    if(o == "discSig") { h = anysig(0); g = anysig(1); if(!h || !g || W.rawdead) return false; t.set("hd", h).set("gd", g); return true; }
    if(o == "disc" || o == "connected" || o == "blockedq") { int c = anyconn(); if(!c) return false; t.set("c", c).set("via", r.below(3)); return true; }
    if(o == "bnew") { int b = 1 + r.below(NB); if(W.blks[b]) return false; t.set("b", b).set("c", r.chance(90) ? anyconn() : 0).set("i", r.chance(75));
      int k2 = hany(); if(k2 && r.chance(40)) for(size_t i = 1; i < W.conns.size(); ++i) if(W.crdy[i] && W.conns[i] == *W.hnds[k2].p) t.set("c", int(i));
      return true; }
    if(o == "bcopy") { int b = 1 + r.below(NB), q = 1 + r.below(NB); if(W.blks[b] || !W.blks[q]) return false; t.set("b", b).set("b2", q); return true; }
    if(o == "bassign") { int b = 1 + r.below(NB), q = 1 + r.below(NB); if(!W.blks[b] || !W.blks[q]) return false; t.set("b", b).set("b2", q); return true; }
    if(o == "bdel" || o == "bblock" || o == "bunblock" || o == "bblocking") { int b = 1 + r.below(NB); if(!W.blks[b]) return false; t.set("b", b); return true; }
    if(o == "onew") { if(int(W.objs.size()) > P.get("maxobj", 10)) return false; int z = r.below(100); t.kind = z < P.get("objt", 25) ? "t" : z < 60 ? "b" : "s"; t.set("ob", int(W.objs.size())); return true; }
    if(o == "odrop") { int n = int(W.objs.size()) - 1; if(!n) return false; int b = 1 + r.below(n); if(!W.objs[b].own) return false; t.set("ob", b); return true; }
    if(o == "ocopy" || o == "oassign") {
      if(o == "ocopy" && int(W.objs.size()) > P.get("maxobj", 10)) return false;
      int a = tobj(), b = tobj(); if(!a || !b) return false; t.set("b2", b);
      if(o == "ocopy") { t.kind = "t"; t.set("ob", int(W.objs.size())); } else t.set("ob", a);
      return true; }
    if(o == "hnew") { int k2 = hfree(); if(!k2) return false; t.set("k", k2).set("c", r.chance(90) ? anyconn() : 0).set("via", r.below(3)); t.kind = htype();
      int b = 1 + r.below(NB); if(W.blks[b] && r.chance(35)) t.set("via", 3).set("b", b).set("c", W.bc[b]);
      return true; }
    if(o == "hset") { int k2 = hany(); if(!k2) return false; t.set("k", k2).set("c", r.chance(90) ? anyconn() : 0).set("via", r.below(2)); return true; }
    if(o == "hcpy" || o == "hmov") { int k2 = hfree(), j = hany(); if(!k2 || !j) return false; t.set("k", k2).set("j", j); t.kind = htype(); return true; }
    if(o == "has") { int k2 = hany(), j = hany(); if(!k2 || (k2 == j && W.hnds[k2].ty == "s")) return false; t.set("k", k2).set("j", j); return true; }
    if(o == "hmas" || o == "hswp" || o == "hlt") { int k2 = hany(), j = hany(); if(!k2 || !j) return false; t.set("k", k2).set("j", j); return true; }
    if(o == "heq") { int k2 = hany(); if(!k2) return false; t.set("k", k2).set("j", r.chance(85) ? hany() : 0); return true; }
    if(o == "hrel") { int k2 = hany(), j = hfree(); if(!k2 || !j || W.hnds[k2].ty != "s") return false; t.set("k", k2).set("j", j); return true; }
    if(o == "hdel" || o == "hdisc" || o == "hconn" || o == "hblk") { int k2 = hany(); if(!k2) return false; t.set("k", k2); return true; }
    if(o == "emit") { h = anysig(1); if(!h || W.depth >= P.get("maxdepth", 4)) return false; t.set("hd", h).set("v", r.below(1000)).set("cst", r.below(2)); return true; }
    return false;
  }
  bool closing_op(Tok &t) {   // deterministic release of everything
    t = Tok("op"); t.set("flt", 0);
    for(int k = 1; k <= NK; ++k) if(W.hnds[k].p && !W.hnds[k].pin) { t.o = "hdel"; t.set("k", k); return true; }
    for(int h = 1; h <= NH; ++h) if(W.sigs[h] && !W.pin[h]) { t.o = "del"; t.set("hd", h); return true; }
    for(int b = 1; b <= NB; ++b) if(W.blks[b]) { t.o = "bdel"; t.set("b", b); return true; }
    for(size_t o = 1; o < W.objs.size(); ++o) if(W.objs[o].own) { t.o = "odrop"; t.set("ob", int(o)); return true; }
    return false;
  }
  Tok next(Ctx c, int atend) {
    Tok t;
    bool over = closing || W.nev > maxev;
    if(c == MAIN) {
      if(over) { if(!closing) { closing = true; handles(); } if(closing_op(t)) return t; return Tok("stop"); }
      if(anysig(0) == 0) { t = Tok("op", "new"); t.set("flt", 0).set("hd", 1 + r.below(NH)).set("cb", r.below(50)).set("cmp", r.chance(P.get("cmp0", 60)) ? 0 : 1 + r.below(3)); return t; }
      for(int i = 0; i < 200; ++i) if(gen(t)) return t;
      closing = true; handles(); return next(c, 0);
    }
    int opp = c == DTOR && W.depth >= 7 ? 0 : c == SLOT ? P.get("slotop", 45) : c == DTOR ? P.get("dtorop", 25) : P.get("combop", 12);
    if(!over && r.chance(opp)) for(int i = 0; i < 8; ++i) if(gen(t)) return t;
    if(c == SLOT) { if(r.chance(P.get("throw", 6))) { t = Tok("cthrow"); t.set("x", r.chance(40) ? EXPIRED : r.chance(25) ? BADWEAK : 1 + r.below(9)); } else { t = Tok("cret"); t.set("v", 1 + r.below(1000)); } return t; }
    if(c == DTOR) return Tok("sdtorE");
    // combiner; chained signals may form cycles: stop the recursion
    if(W.depth > P.get("maxrec", 9) || W.nev > maxev + 60) { t = Tok("cend"); t.set("v", r.below(1000)).set("x", 0); return t; }
    int q = r.below(100), early = P.get("early", 4), re = P.get("reder", 8), skip = P.get("skip", 6);
    if(!atend) {
      if(q < early) { t = Tok("cend"); if(r.chance(40)) t.set("v", 0).set("x", 1 + r.below(9)); else t.set("v", r.below(1000)).set("x", 0); return t; }
      if(!done_here || q < early + re) { done_here = true; if(q >= 100 - skip) { done_here = false; return Tok("inc"); } t = Tok("deref"); t.set("m", r.below(4)); return t; }
      done_here = false; t = Tok("inc"); return t;
    }
    t = Tok("cend");
    if(r.chance(P.get("cthrowend", 4))) t.set("v", 0).set("x", 1 + r.below(9)); else t.set("v", r.below(1000)).set("x", 0);
    return t;
  }
  bool done_here = false;
};

// ---------------------------------------------------------------- executing operations
static void exec_op(Tok t);

static int user_slot(int c, int v, int self) {
  NoFault nf;
  event("call", kv("c", c) + kv("v", v) + kv("self", self));
  ++W.depth; ++W.nev;
  for(;;) {
    Tok t = SRC->next(SLOT, 0);
    if(t.k == "op") { exec_op(t); continue; }
    --W.depth;
    if(t.k == "cthrow") { event("cthrow", t.json()); throw_code(t.get("x")); }
    event("cret", t.json());
    return t.get("v");
  }
}
static void user_dtor(const char *ev, const char *key, int id) {
  NoFault nf;
  event(ev, kv(key, id));
  ++W.depth; ++W.nev;
  for(;;) {
    Tok t = SRC->next(DTOR, 0);
    if(t.k == "op") { exec_op(t); continue; }
    break;
  }
  --W.depth;
  event((std::string(ev) + "E").c_str(), "");
}
struct LibScope { explicit LibScope(bool on) { fault().on = on; } ~LibScope() { fault().on = false; } };
template<typename It> Res Comb::operator()(It first, It last) const {
  NoFault nf;
  event("comb", kv("id", ident()) + kv("end", first == last));
  ++W.depth; ++W.nev;
  RandSource *rs = dynamic_cast<RandSource*>(SRC); if(rs) rs->done_here = false;
  int n = 0;
  for(;;) {
    Tok t = SRC->next(COMB, first == last);
    if(t.k == "op") { exec_op(t); continue; }
    if(t.k == "deref" && n++ < 200) {
      event("deref", t.json());
      int x = 0; Res r(0);
      try {
        LibScope ls(nf.old);
        switch(t.get("m")) {
        case 1: { It copy(first); r = Res(*copy); break; }
        case 2: { r = Res(first->v); if(first->canary != CANARY) r.v = -779; break; }
        case 3: { const It copy = first; const Res &ref = *copy; Res r2 = *first; r = Res(val(ref) == val(r2) && &ref == &*first ? val(ref) : -780); break; }
        default: r = Res(*first);
        }
        x = 0;
      } catch(bs::expired_slot &) { x = EXPIRED; } catch(boost::bad_weak_ptr &) { x = BADWEAK; } catch(X &e) { x = e.code; } catch(std::bad_alloc &) { x = NOMEM; } catch(...) { x = 88; }
      if(x) event("derx", kv("x", x)); else event("derr", kv("v", val(r)));
      if(rs) rs->done_here = x ? (rs->r.chance(70)) : true;
      continue;
    }
    if(t.k == "inc") {
      event("inc", "");
      bool failed = false;
      try { LibScope ls(nf.old); if(t.get("m")) first++; else ++first; } catch(std::bad_alloc &) { failed = true; }
      if(failed) {   // the sequence is not usable any more
        event("incx", kv("x", NOMEM)); --W.depth;
        event("cend", kv("id", ident()) + kv("v", 0) + kv("x", NOMEM));
        throw std::bad_alloc();
      }
      event("incr", kv("end", first == last));
      if((first != last) == (first == last)) event("badeq", "");
      if(rs) rs->done_here = false;
      continue;
    }
    --W.depth;
    Tok e("cend"); e.set("v", t.get("v")).set("x", t.get("x"));
    event("cend", kv("id", ident()) + e.json());
    if(t.get("x")) throw_code(t.get("x"));
    return Res(t.get("v"));
  }
}

struct FaultScope {   // injected allocation failure number `fa` (and all later ones) within the scope
  Fault old;
  FaultScope(const Tok &t): old(fault()) { int f = t.get("flt"); if(f) { fault().at = t.get("fa"); fault().seen = 0; fault().sticky = f == 2; fault().on = true; } }
  ~FaultScope() { fault() = old; }
};
struct Pin { int &p; Pin(int &q): p(q) { ++p; } ~Pin() { --p; } };

template<class S, class F> static void add_tracks(S &sl, const Tok &t, size_t from) {
  for(size_t i = from; i < t.trk.size(); ++i) {
    OE &e = W.objs[t.trk[i]];
    if(e.kind == "b") { if(e.own && (i & 1)) sl.track(e.b); else sl.track(e.wb); }
    else { if(e.own && (i & 1)) sl.track_foreign(e.s); else sl.track_foreign(e.ws); }
  }
}

static void a_function() {}
struct Take { typedef int result_type; int operator()(int v, const TObj &) const { return v; } };
static Sig::slot_type bound_slot(const Fn &fn, TObj *to, int style) {
  using namespace boost::placeholders;
  switch(style) {
  case 0: return Sig::slot_type(boost::bind<Res>(fn, boost::bind<int>(Take(), _1, boost::ref(*to))));   // nested
  case 1: return Sig::slot_type(boost::bind<Res>(fn, boost::bind<int>(Take(), boost::bind<int>(Take(), _1, boost::cref(*to)), boost::cref(*to))));
  case 2: return Sig::slot_type(boost::bind(&TObj::mem, to, fn, _1));                                   // pointer
  case 3: {                                                                                             // the function object itself
    Fn *old = to->fn; to->fn = new Fn(fn);
    Sig::slot_type sl(*to);
    delete to->fn; to->fn = old; return sl; }
  default:
    switch((fn.c / 7) % 5) {
    case 0: return Sig::slot_type(boost::bind<Res>(fn, _1, boost::ref(*to), static_cast<TObj*>(0)));
    case 1: return Sig::slot_type(boost::bind<Res>(fn, _1, boost::ref(*to), static_cast<const Sig*>(0)));
    case 2: return Sig::slot_type(boost::bind<Res>(fn, _1, boost::ref(*to), &a_function));
    case 3: return Sig::slot_type(boost::bind<Res>(fn, _1, boost::ref(*to), static_cast<const TObj*>(to)));
    }
    return Sig::slot_type(boost::bind<Res>(fn, _1, boost::ref(*to)));
  }
}
static bs::connection do_connect(Sig &s, const Tok &t) {
  int p = t.get("p"); Grp g = mkgrp(t.get("g")); int c = t.get("c");
  bs::connect_position pos = t.get("fr") ? bs::at_front : bs::at_back;
  if(t.kind == "c") {
    Sig &to = *W.sigs[t.get("gd")]; const Sig &cto = to;
    using namespace boost::placeholders;
    int st = t.get("f"); if(st) W.raw[t.get("gd")] = true;
    Sig::slot_type sl = st == 0 ? Sig::slot_type(to) : st == 1 ? (c & 1 ? Sig::slot_type(boost::ref(to)) : Sig::slot_type(boost::cref(cto)))
                      : st == 2 ? (c & 1 ? Sig::slot_type(boost::bind<Res>(boost::ref(to), _1)) : Sig::slot_type(boost::bind<Res>(boost::cref(cto), _1)))
                      : (c & 1 ? Sig::slot_type(boost::bind(static_cast<Res (Sig::*)(int)>(&Sig::operator()), &to, _1))
                               : Sig::slot_type(boost::bind(static_cast<Res (Sig::*)(int) const>(&Sig::operator()), &cto, _1)));
    FaultScope fs(t);
    if(p == 1) return s.connect(g, sl, pos);
    if(p == 2) return s.connect(sl);
    return s.connect(sl, pos);
  }
  size_t nt = 0; std::vector<TObj*> to;
  for(; nt < t.trk.size() && W.objs[t.trk[nt]].kind == "t"; ++nt) to.push_back(W.objs[t.trk[nt]].t);
  Fn fn(c, t.get("f"), true);
  using namespace boost::placeholders;
  if(t.kind == "x") {
    Sig::extended_slot_type sl = to.empty() ? Sig::extended_slot_type(fn) : Sig::extended_slot_type(boost::bind<Res>(fn, _1, _2, boost::ref(*to[0])));
    add_tracks<Sig::extended_slot_type, Fn>(sl, t, nt);
    { Fn dead(0, 0, false); std::swap(fn.tok, dead.tok); }
    FaultScope fs(t);
    if(p == 1) return pos == bs::at_back ? s.connect_extended(g, sl) : s.connect_extended(g, sl, pos);
    if(p == 2) return s.connect_extended(sl);
    return s.connect_extended(sl, pos);
  }
  Sig::slot_type sl = to.empty() ? Sig::slot_type(fn) : to.size() == 1 ? bound_slot(fn, to[0], c % 7)
                                 : Sig::slot_type(boost::bind<Res>(fn, _1, boost::ref(*to[0]), to[1]));
  add_tracks<Sig::slot_type, Fn>(sl, t, nt);
  { Fn dead(0, 0, false); std::swap(fn.tok, dead.tok); }
  FaultScope fs(t);
  if(p == 1) return pos == bs::at_back ? s.connect(g, sl) : s.connect(g, sl, pos);
  if(p == 2) return s.connect(sl, pos);
  return s.connect(sl, pos);
}

static int run_op(const Tok &t, int &x) {
  const std::string &o = t.o; int h = t.get("hd"), g = t.get("gd"), r = 0;
  Sig *s = (h >= 1 && h <= NH) ? W.sigs[h] : 0;
  bs::connection conn; int c = t.get("c"); if(c > 0 && c < int(W.conns.size())) conn = W.conns[c];
  if(o == "new") { Comb cb(t.get("cb")); FaultScope fs(t); W.sigs[h] = t.get("cmp") ? new Sig(cb, Cmp(t.get("cmp"))) : new Sig(cb); }
  else if(o == "del") { W.sigs[h] = 0; if(W.raw[h]) { W.rawdead = true; W.raw[h] = false; } delete s; }
  else if(o == "move") { W.sigs[h] = new Sig(std::move(*W.sigs[g])); }
  else if(o == "massign") { Pin p1(W.pin[h]), p2(W.pin[g]); *s = std::move(*W.sigs[g]); }
  else if(o == "swap") { using std::swap; if(h & 1) s->swap(*W.sigs[g]); else swap(*s, *W.sigs[g]); }
  else if(o == "connect") {
    Pin p1(W.pin[h]);
    { NoFault nf; W.conns.push_back(bs::connection()); W.cfn.push_back(t.get("f")); W.ckind.push_back(t.kind); W.csig.push_back(h); W.crdy.push_back(0); }
    struct Rdy { int c; ~Rdy() { W.crdy[c] = 1; } } rdy = {c};
    bs::connection k = do_connect(*s, t);
    if(!(W.conns[c] == bs::connection()) && !(W.conns[c] == k)) event("badself", "");
    W.conns[c] = k; W.crdy[c] = 1;
  }
  else if(o == "setcomb") { Comb cb(t.get("cb")); FaultScope fs(t); s->set_combiner(cb); }
  else if(o == "combq") { FaultScope fs(t); Comb cb = s->combiner(); r = cb.ident(); }
  else if(o == "null") r = s->null();
  else if(o == "eqh") r = *s == *W.sigs[g];
  else if(o == "num") { Pin p1(W.pin[h]); FaultScope fs(t); r = int(s->num_slots()); }
  else if(o == "empty") { Pin p1(W.pin[h]); FaultScope fs(t); r = s->empty(); }
  else if(o == "discAll") { Pin p1(W.pin[h]); s->disconnect_all_slots(); }
  else if(o == "discGrp") { Pin p1(W.pin[h]); s->disconnect(mkgrp(t.get("g"))); }
  else if(o == "discFn") { Pin p1(W.pin[h]); s->disconnect(Fn(0, t.get("f"), false)); }
  else if(o == "discSig") { Pin p1(W.pin[h]); Pin p2(W.pin[g]); s->disconnect(boost::cref(*W.sigs[g])); }
  else if(o == "disc") {
    if(t.get("via") == 1) { bs::connection k2(conn); conn = bs::connection(); k2.disconnect(); }
    else if(t.get("via") == 2) { bs::scoped_connection sc(conn); }
    else conn.disconnect();
  }
  else if(o == "connected") { FaultScope fs(t); r = conn.connected(); }
  else if(o == "blockedq") { FaultScope fs(t); r = conn.blocked(); }
  else if(o == "bnew") { FaultScope fs(t); W.blks[t.get("b")] = t.get("i") ? new bs::shared_connection_block(conn) : new bs::shared_connection_block(conn, false); W.bc[t.get("b")] = c; }
  else if(o == "bcopy") { FaultScope fs(t); W.blks[t.get("b")] = new bs::shared_connection_block(*W.blks[t.get("b2")]); W.bc[t.get("b")] = W.bc[t.get("b2")]; }
  else if(o == "bassign") { FaultScope fs(t); *W.blks[t.get("b")] = *W.blks[t.get("b2")]; W.bc[t.get("b")] = W.bc[t.get("b2")]; }
  else if(o == "bdel") { bs::shared_connection_block *b = W.blks[t.get("b")]; W.blks[t.get("b")] = 0; delete b; }
  else if(o == "bblock") { FaultScope fs(t); W.blks[t.get("b")]->block(); }
  else if(o == "bunblock") W.blks[t.get("b")]->unblock();
  else if(o == "bblocking") r = W.blks[t.get("b")]->blocking();
  else if(o == "onew") {
    OE e; e.kind = t.kind; e.own = true; int i = t.get("ob");
    if(e.kind == "b") { e.b.reset(new Obj(i)); e.wb = e.b; } else if(e.kind == "s") { e.s = std::make_shared<Obj>(i); e.ws = e.s; } else e.t = new TObj(i);
    W.objs.push_back(e);
  }
  else if(o == "odrop") {
    OE &e = W.objs[t.get("ob")]; e.own = false;
    if(e.kind == "b") { boost::shared_ptr<Obj> p; p.swap(e.b); p.reset(); }
    else if(e.kind == "s") { std::shared_ptr<Obj> p; p.swap(e.s); p.reset(); }
    else { TObj *p = e.t; e.t = 0; delete p; }
  }
  else if(o == "ocopy") { OE e; e.kind = "t"; e.own = true; e.t = new TObj(*W.objs[t.get("b2")].t); e.t->o = t.get("ob"); W.objs.push_back(e); }
  else if(o == "oassign") tobj_assign(*W.objs[t.get("ob")].t, *W.objs[t.get("b2")].t);
  else if(o[0] == 'h') {
    static const bs::connection none;
    Hnd &K = W.hnds[t.get("k")]; Hnd &J = W.hnds[t.get("j")];
    bs::connection *k = K.p, *j = t.get("j") ? J.p : 0;
    bs::scoped_connection *ks = K.ty == "s" ? static_cast<bs::scoped_connection*>(k) : 0, *js = j && J.ty == "s" ? static_cast<bs::scoped_connection*>(j) : 0;
    int via = t.get("via"); bool sc = t.kind == "s";
    if(o == "hnew") {
      K.ty = t.kind;
      if(via == 3) { bs::connection bk = W.blks[t.get("b")]->connection(); conn = bk; }
      if(sc) { if(via == 1) K.p = new bs::scoped_connection(std::move(conn)); else if(via == 2) { bs::scoped_connection *q = new bs::scoped_connection(); K.p = q; *q = conn; } else K.p = new bs::scoped_connection(conn); }
      else { if(via == 1) K.p = new bs::connection(std::move(conn)); else if(via == 2) { K.p = new bs::connection(); *K.p = conn; } else K.p = new bs::connection(conn); }
    }
    else if(o == "hset") { Pin p(K.pin); if(ks) { if(via) *ks = std::move(conn); else *ks = conn; } else { if(via) *k = std::move(conn); else *k = conn; } }
    else if(o == "hcpy") { K.ty = t.kind; K.p = sc ? new bs::scoped_connection(static_cast<const bs::connection&>(*j)) : new bs::connection(*j); }
    else if(o == "hmov") { K.ty = t.kind; if(sc) K.p = js ? new bs::scoped_connection(std::move(*js)) : new bs::scoped_connection(std::move(*j)); else K.p = js ? new bs::connection(std::move(*js)) : new bs::connection(std::move(*j)); }
    else if(o == "has") { Pin p(K.pin), q(J.pin); if(ks) *ks = static_cast<const bs::connection&>(*j); else *k = *j; }
    else if(o == "hmas") { Pin p(K.pin), q(J.pin); if(ks) { if(js) *ks = std::move(*js); else *ks = std::move(*j); } else { if(js) *k = std::move(*js); else *k = std::move(*j); } }
    else if(o == "hswp") { using std::swap; if(ks && js) { if(t.get("k") & 1) ks->swap(*js); else swap(*ks, *js); } else if(!ks && !js && (t.get("k") & 1)) swap(*k, *j); else k->swap(*j); }
    else if(o == "hdel") { K.p = 0; std::string ty = K.ty; K.ty = ""; if(ty == "s") delete ks; else delete k; }
    else if(o == "hrel") { bs::connection q = ks->release(); J.p = new bs::connection(q); J.ty = "c"; }
    else if(o == "heq") { const bs::connection &a = *k, &b = j ? *j : none; r = a == b; if((a != b) == (r != 0) || (b == a) != (r != 0)) r = 2; }
    else if(o == "hlt") { r = *k < *j; if(r && *j < *k) r = 2; }
    else if(o == "hdisc") k->disconnect();
    else if(o == "hconn") { FaultScope fs(t); r = k->connected(); }
    else if(o == "hblk") { FaultScope fs(t); r = k->blocked(); }
    else event("badop", "");
  }
  else if(o == "emit") {
    int v = t.get("v"), locks = g_locks;
    try {
      FaultScope fs(t);
      Res res = t.get("cst") ? (*const_cast<const Sig*>(s))(v) : (*s)(v);
      r = val(res);
    } catch(bs::expired_slot &) { x = EXPIRED; } catch(boost::bad_weak_ptr &) { x = BADWEAK; } catch(X &e) { x = e.code; } catch(std::bad_alloc &) { x = NOMEM; } catch(...) { x = 88; }
#if CFG_MUTEX == 0 || CFG_MUTEX == 3
    if(g_locks == locks) event("crash", ",\"why\":\"the mutex type given to the signal was not used\"");
#endif
  }
  else { event("badop", ""); }
  return r;
}
static bool valid(const Tok &t) {   // scripts that lost step with the implementation must not do undefined things
  const std::string &o = t.o; int h = t.get("hd"), g = t.get("gd");
  bool hs = h >= 1 && h <= NH && W.sigs[h], gs = g >= 1 && g <= NH && W.sigs[g];
  int b = t.get("b"), b2 = t.get("b2"), s = t.get("s"), ob = t.get("ob");
  bool be = b >= 1 && b <= NB && W.blks[b], b2e = b2 >= 1 && b2 <= NB && W.blks[b2];
  if(o == "new") return h >= 1 && h <= NH && !W.sigs[h];
  bool rawh = hs && W.raw[h], rawg = gs && W.raw[g];   // such a signal must stay where it is while it may be called
  if(o == "del") return hs && !W.pin[h] && !(rawh && W.depth);
  if(o == "move") return h >= 1 && h <= NH && !W.sigs[h] && gs && !W.pin[g] && !rawg;
  if(o == "massign" || o == "swap") return hs && gs && !W.pin[h] && !W.pin[g] && !rawh && !rawg;
  if(o == "connect") { if(!(hs && !W.sigs[h]->null() && t.get("c") == int(W.conns.size()))) return false; if(t.kind == "c" && !(gs && !W.sigs[g]->null())) return false;
    for(size_t i = 0; i < t.trk.size(); ++i) { if(t.trk[i] < 1 || t.trk[i] >= int(W.objs.size())) return false; if(W.objs[t.trk[i]].kind == "t" && !W.objs[t.trk[i]].t) return false; } return true; }
  if(o == "setcomb" || o == "combq" || o == "emit") return hs && !W.sigs[h]->null() && W.depth < 12;
  if(o == "null" || o == "num" || o == "empty" || o == "discAll" || o == "discGrp" || o == "discFn") return hs;
  if(o == "eqh") return hs && gs;
  if(o == "discSig") return hs && gs && !W.sigs[g]->null() && !W.rawdead;
  if(o == "disc" || o == "connected" || o == "blockedq") return t.get("c") >= 0 && t.get("c") < int(W.conns.size()) && W.crdy[t.get("c")];
  if(o == "bnew") return b >= 1 && b <= NB && !be && t.get("c") < int(W.conns.size()) && W.crdy[t.get("c")];
  if(o == "bcopy") return b >= 1 && b <= NB && !be && b2e;
  if(o == "bassign") return be && b2e;
  if(o == "bdel" || o == "bblock" || o == "bunblock" || o == "bblocking") return be;
  if(o == "onew") return ob == int(W.objs.size());
  if(o == "odrop") return ob >= 1 && ob < int(W.objs.size()) && W.objs[ob].own;
  int k = t.get("k"), j = t.get("j");
  bool kf = k >= 1 && k <= NK && !W.hnds[k].p && !W.hnds[k].pin, ke = k >= 1 && k <= NK && W.hnds[k].p && !W.hnds[k].pin, je = j >= 1 && j <= NK && W.hnds[j].p && !W.hnds[j].pin;
  bool tb = ob >= 1 && ob < int(W.objs.size()) && W.objs[ob].t, tb2 = b2 >= 1 && b2 < int(W.objs.size()) && W.objs[b2].t;
  if(o == "ocopy") return ob == int(W.objs.size()) && tb2;
  if(o == "oassign") return tb && tb2;
  if(o == "hnew" && t.get("via") == 3 && !(be && W.bc[b] == t.get("c"))) return false;
  if(o == "hnew" || o == "hset") return (o == "hnew" ? kf : ke) && t.get("c") >= 0 && t.get("c") < int(W.conns.size()) && W.crdy[t.get("c")];
  if(o == "hcpy" || o == "hmov") return kf && je;
  if(o == "has") return ke && je && !(k == j && W.hnds[k].ty == "s");
  if(o == "hmas" || o == "hswp" || o == "hlt") return ke && je;
  if(o == "heq") return ke && (j == 0 || je);
  if(o == "hrel") return ke && W.hnds[k].ty == "s" && j >= 1 && j <= NK && !W.hnds[j].p && !W.hnds[j].pin;
  if(o == "hdel" || o == "hdisc" || o == "hconn" || o == "hblk") return ke;
  return false;
}
static void exec_op(Tok t) {
  NoFault nf;
  if(!valid(t)) return;   // (scripts only) lost step with the specification
  ++W.nev;
  event("op", t.json());
  int x = 0, r = 0;
  try { r = run_op(t, x); }
  catch(bs::expired_slot &) { x = EXPIRED; } catch(boost::bad_weak_ptr &) { x = BADWEAK; } catch(std::bad_alloc &) { x = NOMEM; } catch(X &e) { x = e.code; } catch(...) { x = 88; }
  event("ret", kv("r", r) + kv("x", x));
}
static void main_program() {
  for(;;) { Tok t = SRC->next(MAIN, 0); if(t.k == "stop") break; exec_op(t); }
}
static void close_all() {   // scripts: release everything, as logged operations
  Profile p; RandSource rs(1, p); rs.closing = true; Source *old = SRC; SRC = &rs;
  Tok t; while(rs.closing_op(t)) exec_op(t);
  SRC = old;
}
static void handles() {   // what the connection objects refer to in the end
  for(int k = 1; k <= NK; ++k) if(W.hnds[k].p)
    for(int j = 0; j < k; ++j) if(!j || W.hnds[j].p) { Tok t("op", "heq"); t.set("k", k).set("j", j).set("flt", 0); exec_op(t); }
}
static void epilogue() {   // scripts: what can be seen of the state they end in
  for(int pass = 0; pass < 2; ++pass) {
    for(int h = 1; h <= NH; ++h) if(W.sigs[h] && !W.sigs[h]->null()) {
      Tok e("op", "emit"); e.set("hd", h).set("v", 7 + pass).set("cst", pass).set("flt", 0);
      Tok n("op", "num"); n.set("hd", h).set("flt", 0);
      exec_op(n); exec_op(e); exec_op(n);
      if(pass) continue;
      static const int keys[][3] = {{1, 2, 0}, {1, 1, 1}, {1, 1, 0}, {0, 0, 1}, {2, 0, 0}, {1, 2, 1}};
      for(size_t k = 0; k < sizeof keys / sizeof *keys; ++k) {
        Tok t("op", "connect"); t.kind = "p"; t.has_trk = true;
        t.set("flt", 0).set("hd", h).set("c", int(W.conns.size())).set("p", keys[k][0]).set("g", keys[k][1]).set("fr", keys[k][2]).set("f", 9).set("gd", 0);
        exec_op(t);
      }
    }
    for(size_t c = 1; c < W.conns.size() && !pass; ++c) {
      Tok t("op", "connected"); t.set("c", int(c)).set("via", 0).set("flt", 0); exec_op(t);
      t.o = "blockedq"; exec_op(t);
    }
  }
}
static void on_alarm(int) { static const char m[] = "{\"e\":\"hang\",\"t\":1,\"h\":0}\n"; logflush(); ssize_t n = write(logfd(), m, sizeof m - 1); (void)n; _exit(4); }

static void finish(long base) {   // everything the library allocated for this program must be gone
  event("end", "");
  W.reset();
  if(g_live != base) event("leak", kv("n", int(g_live - base)));
}
int main(int argc, char **argv) {
  if(argc < 4) return 2;
  std::string mode = argv[1];
  logfd() = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
  signal(SIGALRM, on_alarm);
  logbuf().reserve(1 << 17);
  int i = 0;
  long base = 0;
  if(mode == "rand") {
    uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]); Profile P;
    for(int k = 5; k < argc; ++k) { char *e = strchr(argv[k], '='); if(e) P.w[std::string(argv[k], e)] = atoi(e + 1); }
    for(i = P.get("first", 0); i < n; ++i) {
      alarm(20);
      W.reset(); base = g_live;
      { RandSource rs(seed * 1000003ull + i, P); SRC = &rs;
        event("reset", kv("prog", i));
        main_program(); }
      finish(base);
    }
  } else {
    ScriptSource ss; FILE *f = fopen(argv[3], "r"); if(!f) return 2; char *line = 0; size_t cap = 0; Tok t;
    int first = argc > 4 ? atoi(argv[4]) : 0;
    while(getline(&line, &cap, f) > 0) if(parse_tok(line, t)) ss.toks.push_back(t);
    fclose(f); free(line);
    SRC = &ss;
    while(ss.i < ss.toks.size()) {
      if(ss.toks[ss.i].k == "reset") ++ss.i;
      if(i++ < first) { while(!ss.at_end()) ++ss.i; continue; }
      alarm(20);
      W.reset(); base = g_live;
      event("reset", kv("prog", i - 1));
      main_program();
      handles();
      epilogue();
      close_all();
      finish(base);
    }
  }
  W.reset();
  logflush();
  return 0;
}

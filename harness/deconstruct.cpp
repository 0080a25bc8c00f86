// Driver for deconstruct and deconstruct_ptr (spec/Deconstruct.tla).
#include "mini.hpp"
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/shared_ptr.hpp>
#include <utility>
#include <memory>
using namespace vf; namespace bs = boost::signals2;
struct X { int code; };
static const int NI = 3, NP = 5, MAGIC = 0x600d;
static std::string arr(const char *k, const std::vector<int> &a) { std::string s = std::string(",\"") + k + "\":["; for(size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(a[i]); return s + "]"; }
struct Cur { int ob, pq, x, px, keep; } cur;        // what the object of this operation will do
static boost::shared_ptr<void> P[NP + 1]; static std::string PK[NP + 1]; static int nobj;
static std::map<const void*, int> *LIVE;            // objects in order
struct Arg { int v; explicit Arg(int v_ = 0): v(v_) {} Arg(Arg &&o): v(o.v) { o.v = -1; } Arg(const Arg &o): v(o.v) {} };
static Arg RA, CA;                                  // the caller's objects
struct Body {
  int ob, pq, magic;
  Body(): ob(cur.ob), pq(cur.pq), magic(MAGIC) {}
  ~Body() { NoFault nf; event("dtor", kv("ob", ob) + arr("a", std::vector<int>()) + kv("ok", magic == MAGIC && LIVE->count(this) == 1)); LIVE->erase(this); magic = 0; }
  void ctor(const std::vector<int> &a, bool ok) {
    NoFault nf; event("ctor", kv("ob", ob) + arr("a", a) + kv("ok", ok));
    if(cur.x) { magic = 0; throw X{cur.x}; }
    (*LIVE)[this] = ob;
  }
  bool ok() const { return magic == MAGIC && LIVE->count(this) == 1; }
  void post(const std::vector<int> &a, bool good, const boost::shared_ptr<void> &sp, const std::string &k) {
    NoFault nf; event("post", kv("ob", ob) + arr("a", a) + kv("ok", good && ok()));
    if(cur.keep) { P[cur.keep] = sp; PK[cur.keep] = k; }
    if(cur.px) throw X{cur.px};
  }
  void pre(bool good) {
    NoFault nf; event("pre", kv("ob", ob) + arr("a", std::vector<int>()) + kv("ok", good && ok()));
    if(pq && P[pq]) { boost::shared_ptr<void> t; t.swap(P[pq]); t.reset(); }
  }
};
// a constructor that throws leaves no object: Body's destructor must not log it
struct Quiet { bool armed; Body *b; Quiet(Body *b_): armed(true), b(b_) {} };
template<class... A> std::vector<int> vals(const A &... a) { NoFault nf; int t[] = {0, a...}; return std::vector<int>(t + 1, t + 1 + sizeof...(a)); }
static bool align(const void *p, size_t a) { return reinterpret_cast<uintptr_t>(p) % a == 0; }
struct Holder {   // the part of an object that logs; released without a trace when the constructor throws
  Body *b; Holder(): b(0) {} ~Holder() { NoFault nf; delete b; }
  void ctor(const std::vector<int> &a, bool ok) { NoFault nf; std::unique_ptr<Body, void(*)(Body*)> t(new Body, [](Body *q) { ::operator delete(q); }); t->ctor(a, ok); b = t.release(); }
};
#define CTOR(N) template<class... A> explicit N(const A &... a) { h.ctor(vals(a...), align(this, alignof(N))); }
namespace user {
typedef boost::shared_ptr<void> SP;
template<class T> boost::shared_ptr<void> er(const boost::shared_ptr<T> &p) { return boost::shared_ptr<void>(p, const_cast<typename boost::remove_const<T>::type*>(p.get())); }
template<class T> bool owns(const boost::shared_ptr<T> &a, const void *p) { return a.get() == p && a.use_count() > 0; }
struct Adl { Holder h; long pad[3]; CTOR(Adl) };
struct Priv { Holder h; private: friend class boost::signals2::deconstruct_access; CTOR(Priv) };
struct Esft: boost::enable_shared_from_this<Esft> { Holder h; CTOR(Esft) };
struct Cst { Holder h; CTOR(Cst) };
struct Nopre { Holder h; CTOR(Nopre) };
struct alignas(32) Algn { Holder h; char c[40]; CTOR(Algn) };
#define ADL(N, CQ, EXTRA, PRE) \
  template<class... A> void adl_postconstruct(const boost::shared_ptr<CQ N> &sp, N *p, const A &... a) { NoFault nf; p->h.b->post(vals(a...), owns(sp, p) && (EXTRA), er(sp), #N); } \
  PRE
ADL(Adl, , true, void adl_predestruct(Adl *p) { p->h.b->pre(true); })
ADL(Priv, , true, void adl_predestruct(Priv *p) { p->h.b->pre(true); })
static bool dead(Esft *p) { NoFault nf; try { p->shared_from_this(); return false; } catch(boost::bad_weak_ptr &) { return true; } }
ADL(Esft, , p->shared_from_this() == sp, void adl_predestruct(Esft *p) { p->h.b->pre(dead(p)); })
ADL(Cst, const, true, void adl_predestruct(Cst *p) { p->h.b->pre(true); })
ADL(Nopre, , true, )
ADL(Algn, , align(p, 32), void adl_predestruct(Algn *p) { p->h.b->pre(align(p, 32)); })
struct Fwd { Holder h;   // perfect forwarding: a reference, a const reference, a moved value
  Fwd(Arg &r, const Arg &c, Arg &&m) { NoFault nf; Arg t(std::move(m)); h.ctor(vals(r.v, c.v, t.v), &r == &RA && &c == &CA); } };
inline void adl_postconstruct(const boost::shared_ptr<Fwd> &sp, Fwd *p) { NoFault nf; p->h.b->post(std::vector<int>(), owns(sp, p), er(sp), "Fwd"); }
inline void adl_postconstruct(const boost::shared_ptr<Fwd> &sp, Fwd *p, Arg &r, const Arg &c, Arg &&m) { NoFault nf; Arg t(std::move(m)); p->h.b->post(vals(r.v, c.v, t.v), owns(sp, p) && &r == &RA && &c == &CA, er(sp), "Fwd"); }
inline void adl_predestruct(Fwd *p) { p->h.b->pre(true); }
// the older protocol by base classes
struct Old: bs::postconstructible, bs::predestructible { Holder h; CTOR(Old) void postconstruct() { h.b->post(std::vector<int>(), true, SP(), ""); } void predestruct() { h.b->pre(true); } };
struct Oldpo: bs::postconstructible { Holder h; CTOR(Oldpo) void postconstruct() { h.b->post(std::vector<int>(), true, SP(), ""); } };
struct Oldpr: bs::predestructible { Holder h; CTOR(Oldpr) void predestruct() { h.b->pre(true); } };
// with deconstruct_ptr
struct Plain { Holder h; CTOR(Plain) };
struct Pad { virtual ~Pad() {} long x[4]; };
struct Second: Pad, bs::predestructible, bs::postconstructible { Holder h; CTOR(Second) void postconstruct() { h.b->post(std::vector<int>(), true, SP(), ""); } void predestruct() { h.b->pre(true); } };
struct Base: bs::postconstructible, bs::predestructible { virtual ~Base() {} };
struct Derived: Pad, Base { Holder h; CTOR(Derived) void postconstruct() { h.b->post(std::vector<int>(), true, SP(), ""); } void predestruct() { h.b->pre(true); } };
struct Esftp: bs::postconstructible, bs::predestructible, boost::enable_shared_from_this<Esftp> { Holder h; CTOR(Esftp)
  void postconstruct() { SP s; bool ok = true; { NoFault nf; try { s = er(shared_from_this()); ok = s.get() == this; } catch(boost::bad_weak_ptr &) { ok = false; } } h.b->post(std::vector<int>(), ok, s, "Esftp"); }
  void predestruct() { bool d; { NoFault nf; try { shared_from_this(); d = false; } catch(boost::bad_weak_ptr &) { d = true; } } h.b->pre(d); } };
}
using namespace user;
static const Body *body(const void *p, const std::string &k);   // by the kind
template<class T> struct Rd { static int ob(const boost::shared_ptr<T> &p) { return p && p->h.b && p->h.b->ok() ? p->h.b->ob : -1; } };
template<> struct Rd<Base> { static int ob(const boost::shared_ptr<Base> &p) { Derived *d = p ? dynamic_cast<Derived*>(p.get()) : 0; return d && d->h.b->ok() ? d->h.b->ob : -1; } };
template<> struct Rd<const Base> { static int ob(const boost::shared_ptr<const Base> &p) { const Derived *d = p ? dynamic_cast<const Derived*>(p.get()) : 0; return d && d->h.b->ok() ? d->h.b->ob : -1; } };
template<class T> bs::postconstructor_invoker<T> decon(const Tok &t) {
  FaultScope fs(t); const std::vector<int> &a = t.trk;
  switch(a.size()) {
  case 0: return bs::deconstruct<T>(); case 1: return bs::deconstruct<T>(a[0]); case 2: return bs::deconstruct<T>(a[0], a[1]); case 3: return bs::deconstruct<T>(a[0], a[1], a[2]);
  case 4: return bs::deconstruct<T>(a[0], a[1], a[2], a[3]); case 5: return bs::deconstruct<T>(a[0], a[1], a[2], a[3], a[4]); case 6: return bs::deconstruct<T>(a[0], a[1], a[2], a[3], a[4], a[5]);
  case 7: return bs::deconstruct<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); case 8: return bs::deconstruct<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  default: return bs::deconstruct<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  }
}
template<class T> struct Pcon { static const boost::shared_ptr<T> &go(const bs::postconstructor_invoker<T> &i, const Tok &t, const std::vector<int> &a) {
  if(!t.get("via")) return i;
  switch(a.size()) {
  case 0: return i.postconstruct(); case 1: return i.postconstruct(a[0]); case 2: return i.postconstruct(a[0], a[1]); case 3: return i.postconstruct(a[0], a[1], a[2]);
  case 4: return i.postconstruct(a[0], a[1], a[2], a[3]); case 5: return i.postconstruct(a[0], a[1], a[2], a[3], a[4]); case 6: return i.postconstruct(a[0], a[1], a[2], a[3], a[4], a[5]);
  case 7: return i.postconstruct(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); case 8: return i.postconstruct(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  default: return i.postconstruct(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  }
} };
template<class T> struct PconOld { static const boost::shared_ptr<T> &go(const bs::postconstructor_invoker<T> &i, const Tok &t, const std::vector<int> &) { if(!t.get("via")) return i; return i.postconstruct(); } };
template<> struct Pcon<Old>: PconOld<Old> {}; template<> struct Pcon<Oldpo>: PconOld<Oldpo> {}; template<> struct Pcon<Oldpr>: PconOld<Oldpr> {};
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
template<> bs::postconstructor_invoker<Fwd> decon<Fwd>(const Tok &t) { FaultScope fs(t); const std::vector<int> &a = t.trk; RA.v = a[0]; CA.v = a[1]; const Arg &c = CA; return bs::deconstruct<Fwd>(RA, c, Arg(a[2])); }
template<> struct Pcon<Fwd> { static const boost::shared_ptr<Fwd> &go(const bs::postconstructor_invoker<Fwd> &i, const Tok &t, const std::vector<int> &a) {
  if(!t.get("via")) return i; if(a.empty()) return i.postconstruct(); RA.v = a[0]; CA.v = a[1]; const Arg &c = CA; return i.postconstruct(RA, c, Arg(a[2])); } };
#endif
struct InvB { std::string k; virtual ~InvB() {} virtual int pc(int p, const Tok &t, const std::vector<int> &a) = 0; virtual InvB *clone() const = 0; virtual int ob() const = 0; };
template<class T> int store(int p, const boost::shared_ptr<T> &s, const std::string &k) { int ob = Rd<T>::ob(s); P[p] = er(s); PK[p] = k; return ob; }
template<class T> struct Inv: InvB {
  bs::postconstructor_invoker<T> i; int o;
  Inv(const Tok &t): i(decon<T>(t)), o(cur.ob) {}
  int pc(int p, const Tok &t, const std::vector<int> &a) { const boost::shared_ptr<T> &s = Pcon<T>::go(i, t, a); return store(p, s, k); }
  InvB *clone() const { return new Inv(*this); }
  int ob() const { return o; }
};
template<class T> struct UDel { T *p; int ob; void operator()(T *q) const { NoFault nf; event("udel", kv("ob", ob) + arr("a", std::vector<int>()) + kv("ok", p == q)); delete q; } };
template<class T> struct NDel { void operator()(T *q) const { if(q) event("udel", kv("ob", -1)); } };
template<class T, class D> int pnew(const Tok &t, const std::string &k) {
  boost::shared_ptr<T> s;
  if(t.o == "pnull") { FaultScope fs(t); T *n = 0; if(t.get("del")) s = bs::deconstruct_ptr(n, NDel<T>()); else s = bs::deconstruct_ptr(n); return s.get() ? -1 : 0; }
  T *o = new D();
  { FaultScope fs(t); if(t.get("del")) { UDel<T> d = {o, cur.ob}; s = bs::deconstruct_ptr(o, d); } else s = bs::deconstruct_ptr(o); }
  return s.get() == o ? store(t.get("p"), s, k) : -2;
}
static const char *DK[] = {"adl","priv","esft","const","nopre","algn","old","oldpo","oldpr","fwd"}, *PKN[] = {"plain","post","pre","both","second","base","cboth","esftp"};
static InvB *mkinv(const std::string &k, const Tok &t) {
  InvB *r = k == "adl" ? (InvB*)new Inv<Adl>(t) : k == "priv" ? (InvB*)new Inv<Priv>(t) : k == "esft" ? (InvB*)new Inv<Esft>(t) : k == "const" ? (InvB*)new Inv<const Cst>(t) : k == "nopre" ? (InvB*)new Inv<Nopre>(t) :
     k == "algn" ? (InvB*)new Inv<Algn>(t) : k == "old" ? (InvB*)new Inv<Old>(t) : k == "oldpo" ? (InvB*)new Inv<Oldpo>(t) :
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
     k == "fwd" ? (InvB*)new Inv<Fwd>(t) :
#endif
     (InvB*)new Inv<Oldpr>(t);
  r->k = k; return r;
}
static int mkptr(const std::string &k, const Tok &t) {
  return k == "plain" ? pnew<Plain, Plain>(t, k) : k == "post" ? pnew<Oldpo, Oldpo>(t, k) : k == "pre" ? pnew<Oldpr, Oldpr>(t, k) : k == "both" ? pnew<Old, Old>(t, k) : k == "second" ? pnew<Second, Second>(t, k) :
     k == "base" ? pnew<Base, Derived>(t, k) : k == "cboth" ? pnew<const Old, Old>(t, k) : pnew<Esftp, Esftp>(t, k);
}
template<class T> int make1(const Tok &t, const std::vector<int> &pa, const std::string &k) {
  boost::shared_ptr<T> s = Pcon<T>::go(decon<T>(t), t, pa); return store(t.get("p"), s, k);
}
static int mk1(const std::string &k, const Tok &t, const std::vector<int> &pa) {
  return k == "adl" ? make1<Adl>(t, pa, k) : k == "priv" ? make1<Priv>(t, pa, k) : k == "esft" ? make1<Esft>(t, pa, k) : k == "const" ? make1<const Cst>(t, pa, k) : k == "nopre" ? make1<Nopre>(t, pa, k) :
     k == "algn" ? make1<Algn>(t, pa, k) : k == "old" ? make1<Old>(t, pa, k) : k == "oldpo" ? make1<Oldpo>(t, pa, k) :
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
     k == "fwd" ? make1<Fwd>(t, pa, k) :
#endif
     make1<Oldpr>(t, pa, k);
}
static InvB *I[NI + 1]; static std::vector<char> *done;
static bool in(const std::string &k, const char **l, int n) { for(int i = 0; i < n; ++i) if(k == l[i]) return true; return false; }
static bool freep(int p) { return p >= 1 && p <= NP && !P[p]; }
static bool adlkind(const std::string &k) { return k.compare(0, 3, "old"); }
static bool keepable(const std::string &k) { return adlkind(k) && (k == "esftp" || in(k, DK, 10)); }
static std::vector<int> args(int n, int b, int d) { std::vector<int> a; for(int j = 1; j <= n; ++j) a.push_back(b * j + d); return a; }
static std::vector<int> pargs(const Tok &t) { return t.get("via") ? args(t.get("npa"), t.get("b"), 2) : std::vector<int>(); }
static std::string more(const Tok &t) {
  std::string s; if(t.o == "dnew" || t.o == "dmake") s += arr("a", args(t.get("na"), t.get("b"), 1)); if(t.o == "dpost" || t.o == "dmake" || t.o == "pnew") s += arr("pa", pargs(t)); return s;
}
void vf::d_reset() {
  for(int i = 1; i <= NI; ++i) { delete I[i]; I[i] = 0; } for(int i = 1; i <= NP; ++i) { P[i].reset(); std::string().swap(PK[i]); } delete LIVE; LIVE = 0; nobj = 0; delete done; done = 0; extra() = more;
}
bool vf::d_gen(Rng &r, const Profile &pr, Tok &t) {
  bool pt = r.chance(pr.get("ptr", 0)); int q = r.below(100), z = r.below(100);
  int v = 1 + r.below(NI), p = 1 + r.below(NP), f = r.chance(pr.get("fault", 6));
  const char *dk = DK[r.below(10)]; bool fw = !strcmp(dk, "fwd");
  int na = fw ? 3 : r.below(10), npa = fw ? 3 * r.below(2) : !strncmp(dk, "old", 3) ? 0 : r.chance(50) ? 0 : r.below(10);
  int x = r.chance(12) ? 1 + r.below(9) : 0, px = r.chance(18) ? 10 + r.below(9) : 0, keep = r.chance(20) ? 1 + r.below(NP) : 0, pq = r.chance(25) ? 1 + r.below(NP) : 0;
  if(q < 45 && pt) { t = Tok("op", z < 8 ? "pnull" : "pnew"); t.kind = PKN[r.below(8)]; t.set("p", p).set("del", r.chance(35)).set("px", px).set("keep", t.kind == "esftp" ? keep : 0).set("pq", pq).set("ob", nobj + 1).set("via", 0); if(f) t.set("flt", 1).set("fa", r.below(2)); else t.set("flt", 0).set("fa", 0); }
  else if(q < 45) {
    if(z < 55) { t = Tok("op", "dnew"); t.kind = dk; t.set("v", v).set("na", na).set("b", r.below(100)).set("x", x).set("pq", pq).set("del", 0).set("ob", nobj + 1).set("flt", f).set("fa", 0); }
    else { t = Tok("op", "dmake"); t.kind = dk; t.set("p", p).set("na", na).set("b", r.below(100)).set("x", x).set("via", r.below(2)).set("npa", npa).set("px", px).set("keep", keepable(t.kind) ? keep : 0).set("pq", pq).set("del", 0).set("ob", nobj + 1).set("flt", f).set("fa", 0); }
  }
  else if(q < 62) { if(!I[v]) return false; const std::string &k = I[v]->k; t = Tok("op", "dpost"); t.set("v", v).set("p", p).set("via", r.below(2)).set("npa", k == "fwd" ? 3 * r.below(2) : adlkind(k) ? npa : 0).set("b", r.below(100)).set("px", px).set("keep", keepable(k) ? keep : 0); }
  else if(q < 71) { t = Tok("op", "idrop"); t.set("v", v); }
  else if(q < 75) { t = Tok("op", "icopy"); t.set("v", v).set("w", 1 + r.below(NI)); }
  else if(q < 88) { t = Tok("op", "pdrop"); t.set("p", p); }
  else if(q < 96) { t = Tok("op", "pcopy"); t.set("p", p).set("q", 1 + r.below(NP)); }
  else { t = Tok("op", "sft"); t.set("p", p); }
  return true;
}
static bool hasi(int v) { return v >= 1 && v <= NI && I[v]; }
bool vf::d_valid(const Tok &t) {
  if(!LIVE) { LIVE = new std::map<const void*, int>; done = new std::vector<char>(64); }
  bool news = t.o == "dnew" || t.o == "dmake" || t.o == "pnew";
  if(news && (t.get("ob") != nobj + 1 || nobj > 60)) return false;
  if((t.o == "dnew" || t.o == "dmake") && (!in(t.kind, DK, 10) || t.get("na") > 9 || (t.kind == "fwd" && t.get("na") != 3))) return false;
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
  if(t.kind == "fwd") return false;
#endif
  if(t.o == "dmake" || t.o == "dpost" || t.o == "pnew") {
    std::string k = t.o == "dpost" ? (hasi(t.get("v")) ? I[t.get("v")]->k : "?") : t.kind; if(k == "?") return false;
    int kp = t.get("keep"); if(!freep(t.get("p"))) return false;
    if(kp && (!freep(kp) || kp == t.get("p") || !keepable(k) || (t.o == "pnew" && k != "esftp"))) return false;
    if(t.get("npa") > (adlkind(k) ? 9 : 0) || (k == "fwd" && t.get("npa") != 0 && t.get("npa") != 3)) return false;
    if(t.o == "pnew" && !in(k, PKN, 8)) return false;
  }
  if(t.o == "dnew") return t.get("v") >= 1 && t.get("v") <= NI && !I[t.get("v")];
  if(t.o == "pnull") return in(t.kind, PKN, 8);
  if(t.o == "idrop") return hasi(t.get("v"));
  if(t.o == "icopy") return hasi(t.get("v")) && t.get("w") >= 1 && t.get("w") <= NI && !I[t.get("w")] && ((*done)[I[t.get("v")]->ob()] || I[t.get("v")]->k == "oldpr");
  if(t.o == "pdrop") return t.get("p") >= 1 && t.get("p") <= NP && P[t.get("p")];
  if(t.o == "pcopy") return t.get("p") >= 1 && t.get("p") <= NP && P[t.get("p")] && freep(t.get("q"));
  if(t.o == "sft") return t.get("p") >= 1 && t.get("p") <= NP && P[t.get("p")] && (PK[t.get("p")] == "esft" || PK[t.get("p")] == "Esft" || PK[t.get("p")] == "esftp" || PK[t.get("p")] == "Esftp");
  return true;
}
bool vf::d_close(Tok &t) {
  for(int i = 1; i <= NI; ++i) if(I[i]) { t = Tok("op", "idrop"); t.set("v", i); return true; }
  for(int i = 1; i <= NP; ++i) if(P[i]) { t = Tok("op", "pdrop"); t.set("p", i); return true; }
  return false;
}
void vf::d_exec(const Tok &t0) {
  Tok t(t0); int r = 0, x = 0; Cur c = {t.get("ob"), t.get("pq"), t.get("x"), t.get("px"), t.get("keep")}; cur = c;
  t.trk = args(t.get("na"), t.get("b"), 1); std::vector<int> pa = pargs(t);
  if(t.o == "dnew" || t.o == "dmake" || t.o == "pnew") nobj = t.get("ob");
  try {
    if(t.o == "dnew") { I[t.get("v")] = mkinv(t.kind, t); r = I[t.get("v")]->ob(); }
    else if(t.o == "dpost") { r = I[t.get("v")]->pc(t.get("p"), t, pa); (*done)[I[t.get("v")]->ob()] = 1; }
    else if(t.o == "dmake") r = mk1(t.kind, t, pa);
    else if(t.o == "pnew" || t.o == "pnull") r = mkptr(t.kind, t);
    else if(t.o == "idrop") { InvB *i = I[t.get("v")]; I[t.get("v")] = 0; delete i; }
    else if(t.o == "icopy") I[t.get("w")] = I[t.get("v")]->clone();
    else if(t.o == "pdrop") { boost::shared_ptr<void> q; q.swap(P[t.get("p")]); q.reset(); }
    else if(t.o == "pcopy") { P[t.get("q")] = P[t.get("p")]; PK[t.get("q")] = PK[t.get("p")]; }
    else if(t.o == "sft") {
      int p = t.get("p"); bool a = PK[p] == "esft" || PK[p] == "Esft";
      if(a) { boost::shared_ptr<Esft> s = static_cast<Esft*>(P[p].get())->shared_from_this(); r = s.get() == P[p].get() && !(s < P[p]) && !(P[p] < s) ? Rd<Esft>::ob(s) : -3; }
      else { boost::shared_ptr<Esftp> s = static_cast<Esftp*>(P[p].get())->shared_from_this(); r = s.get() == P[p].get() && !(s < P[p]) && !(P[p] < s) ? Rd<Esftp>::ob(s) : -3; }
    }
  } catch(X &e) { x = e.code; } catch(std::bad_alloc &) { x = 99; } catch(...) { x = 88; }
  event("ret", kv("r", r) + kv("x", x));
}

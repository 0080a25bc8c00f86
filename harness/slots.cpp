// Driver for slot objects (spec/Slots.tla).
#include "mini.hpp"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <memory>
#include <functional>
using namespace vf; namespace bs = boost::signals2;
struct X { int code; };
static const int EXPIRED = 99, NSL = 5, NL = 2;
struct Res { int v; explicit Res(int v_ = 0): v(v_) {} };
static int cur_dr, cur_x;       // what the function called next does
static int cur_fd, cur_fa;      // given up while a foreign pointer is being looked at
static void do_drop(int ob);
static void hook();
// a foreign smart pointer
template<class T> struct FShared { std::shared_ptr<T> p; typedef T element_type; };
template<class T> struct FWeak {
  std::weak_ptr<T> w; FWeak(const std::weak_ptr<T> &x): w(x) {} FWeak(const FShared<T> &x): w(x.p) {}
  FShared<T> lock() const { FShared<T> r; hook(); r.p = w.lock(); hook(); return r; }
  bool expired() const { hook(); bool r = w.expired(); hook(); return r; }
};
namespace boost { namespace signals2 { template<typename T> struct weak_ptr_traits<FWeak<T> > { typedef FShared<T> shared_type; }; template<typename T> struct shared_ptr_traits<FShared<T> > { typedef FWeak<T> weak_type; }; } }
static Res body(int fn, int n, int v) {
  event("call", kv("fn", fn) + kv("n", n) + kv("v", v));
  if(cur_dr) { int d = cur_dr; cur_dr = 0; event("drop", kv("ob", d)); do_drop(d); }
  int x = cur_x;
  event("cret", kv("x", x));
  if(x == EXPIRED) throw bs::expired_slot();
  if(x) throw X{x};
  return Res(v + fn);
}
struct TObj;
struct Fn {
  int f; mutable int n; explicit Fn(int f_): f(f_), n(0) {}
  typedef Res result_type;
  Res operator()(int v) const { return body(f, n++, v); }
  Res operator()(int v, const TObj &) const { return body(f, n++, v); }
};
struct Obj { int o; explicit Obj(int i): o(i) {} ~Obj() { event("odtor", kv("ob", o)); } };
struct TObj: bs::trackable { int o; explicit TObj(int i): o(i) {} ~TObj() { event("odtor", kv("ob", o)); } };
typedef bs::signal<Res(int), bs::last_value<Res> > GSig;
struct GFn { std::shared_ptr<Obj> tok; int f; mutable std::shared_ptr<int> n; typedef Res result_type; Res operator()(int v) const { return body(f, (*n)++, v); } };
struct OE { std::string kind; boost::shared_ptr<Obj> b; std::shared_ptr<Obj> s; boost::weak_ptr<Obj> wb; std::weak_ptr<Obj> ws; TObj *t; GSig *g; bool own; OE(): t(0), g(0), own(true) {} };
// three types of slots, convertible into each other
typedef bs::slot<Res(int)> SA; typedef bs::slot<Res(short)> SB; typedef bs::slot<Res(int), std::function<Res(int)> > SC;
struct AnySlot {
  virtual ~AnySlot() {}
  virtual int type() const = 0;
  virtual void assign(const AnySlot &o) = 0;
  virtual Res call(int v) = 0; virtual Res ccall(int v) const = 0;
  virtual bs::slot_base &base() = 0; const bs::slot_base &cbase() const { return const_cast<AnySlot*>(this)->base(); }
  virtual void track(OE &e, int via) = 0; virtual void tracks(const bs::slot_base &o) = 0;
  virtual Res become(int v, int &n) = 0;
};
template<class S, int T, class Sig> struct SlotT: AnySlot {
  S s;
  template<class F> explicit SlotT(const F &f): s(f) {}
  int type() const { return T; }
  void assign(const AnySlot &o) { s = static_cast<const SlotT&>(o).s; }
  Res call(int v) { return s(v); } Res ccall(int v) const { return s(v); }
  bs::slot_base &base() { return s; }
  void track(OE &e, int via) {
    if(e.kind == "g") { S &r = s.track(*e.g); if(&r != &s) event("badself"); return; }
    if(e.kind == "b") { if(via && e.own) s.track(e.b); else if(via) s.track_foreign(e.wb); else s.track(e.wb); }
    else if(e.kind == "f") { if(via && e.own) { FShared<Obj> q; q.p = e.s; s.track_foreign(q); } else s.track_foreign(FWeak<Obj>(e.ws)); }
    else { if(via && e.own) s.track_foreign(e.s); else s.track_foreign(e.ws); }
  }
  void tracks(const bs::slot_base &o) { s.track(o); }
  Res become(int v, int &n) {
    Sig sig; bs::connection c = sig.connect(s); n = int(sig.num_slots());
    if((n == 1) != c.connected()) n = 7;
    return sig(v);
  }
};
typedef SlotT<SA, 0, bs::signal<Res(int), bs::last_value<Res> > > TA;
typedef SlotT<SB, 1, bs::signal<Res(short), bs::last_value<Res> > > TB;
typedef SlotT<SC, 2, bs::signal<Res(int), bs::last_value<Res>, int, std::less<int>, std::function<Res(int)> > > TC;
static AnySlot *conv(AnySlot &j, int cv) {   // a slot of type cv constructed from another
  switch(j.type() * 3 + cv) {
  case 0: return new TA(static_cast<TA&>(j).s); case 1: return new TB(static_cast<TA&>(j).s); case 2: return new TC(static_cast<TA&>(j).s);
  case 3: return new TA(static_cast<TB&>(j).s); case 4: return new TB(static_cast<TB&>(j).s); case 5: return new TC(static_cast<TB&>(j).s);
  case 6: return new TA(static_cast<TC&>(j).s); case 7: return new TB(static_cast<TC&>(j).s); default: return new TC(static_cast<TC&>(j).s);
  }
}
template<class F> static AnySlot *fresh(const F &f, int cv) { return cv == 0 ? (AnySlot*)new TA(f) : cv == 1 ? (AnySlot*)new TB(f) : (AnySlot*)new TC(f); }
static AnySlot *S[NSL + 1]; static std::vector<OE> *O; static bs::slot_base::locked_container_type *L[NL + 1];
static void do_drop(int ob) {
  OE &e = (*O)[ob]; e.own = false;
  if(e.kind == "b") { boost::shared_ptr<Obj> p; p.swap(e.b); } else if(e.kind == "s" || e.kind == "f") { std::shared_ptr<Obj> p; p.swap(e.s); }
  else if(e.kind == "t") { TObj *p = e.t; e.t = 0; delete p; } else { GSig *p = e.g; e.g = 0; delete p; }
}
static void hook() { if(cur_fd && cur_fa-- == 0) { int d = cur_fd; cur_fd = 0; event("fdrop", kv("ob", d)); do_drop(d); } }
void vf::d_reset() { for(int k = 1; k <= NSL; ++k) { delete S[k]; S[k] = 0; } for(int m = 1; m <= NL; ++m) { delete L[m]; L[m] = 0; } delete O; O = 0; }
static int nobj() { return O ? int(O->size()) - 1 : 0; }
static bool ex(int k) { return k >= 1 && k <= NSL && S[k]; }
static bool obex(int o) { return o >= 1 && o <= nobj(); }
static bool usable(int o) { return obex(o) && ((*O)[o].own || (*O)[o].kind == "b" || (*O)[o].kind == "s" || (*O)[o].kind == "f"); }
bool vf::d_valid(const Tok &t) {
  int k = t.get("k"), j = t.get("j"), ob = t.get("ob"), m = t.get("m"), fd = t.get("fd");
  if(fd && !(obex(fd) && (*O)[fd].own && t.get("dr") != fd && (t.o == "expired" || t.o == "lock" || t.o == "call") && ((*O)[fd].kind == "b" || (*O)[fd].kind == "s" || (*O)[fd].kind == "f"))) return false;
  if(t.o == "onew") return ob == nobj() + 1;
  if(t.o == "odrop") return obex(ob) && (*O)[ob].own;
  if(t.o == "snew") { if(!(k >= 1 && k <= NSL && !S[k])) return false; return ob == 0 ? t.kind == "f" : obex(ob) && (*O)[ob].own && (*O)[ob].kind == t.kind && (t.kind == "t" || t.kind == "g"); }
  if(t.o == "scopy") return k >= 1 && k <= NSL && !S[k] && ex(j);
  if(t.o == "sassign") return ex(k) && ex(j) && S[k]->type() == S[j]->type();
  if(t.o == "sdel" || t.o == "expired" || t.o == "ntrk") return ex(k);
  if(t.o == "track") return ex(k) && usable(ob) && (*O)[ob].kind != "t";
  if(t.o == "tracks") return ex(k) && ex(j) && k != j;
  if(t.o == "lock") return ex(k) && m >= 1 && m <= NL && !L[m];
  if(t.o == "unlock") return m >= 1 && m <= NL && L[m];
  if(t.o == "call" || t.o == "become") return ex(k) && (t.get("dr") == 0 || (obex(t.get("dr")) && (*O)[t.get("dr")].own));
  return false;
}
bool vf::d_gen(Rng &r, const Profile &p, Tok &t) {
  static const char *ops[] = {"onew","odrop","snew","scopy","sassign","sdel","track","tracks","expired","ntrk","lock","unlock","call","become"};
  static const int w[] = {6,4,5,4,2,2,9,3,5,1,4,3,8,4};
  int tot = 0; for(int i = 0; i < 14; ++i) tot += w[i];
  int x = r.below(tot), i = 0; while(x >= w[i]) x -= w[i++];
  t = Tok("op", ops[i]); std::string o = ops[i];
  int k = 1 + r.below(NSL), ob = 1 + r.below(nobj());
  if(o == "onew") { if(nobj() > 7) return false; static const char *kd[] = {"b","s","t","g","f","f"}; t.kind = kd[r.below(6)]; t.set("ob", nobj() + 1); }
  else if(o == "odrop") t.set("ob", ob);
  else if(o == "snew") { t.kind = "f"; int q = 0; if(r.chance(50) && nobj()) { q = ob; t.kind = (*O)[ob].kind; if(t.kind != "t" && t.kind != "g") return false; } t.set("k", k).set("f", 1 + r.below(9)).set("ob", q).set("cv", r.below(3)).set("via", r.below(3)); }
  else if(o == "scopy") t.set("k", k).set("j", 1 + r.below(NSL)).set("cv", r.below(3));
  else if(o == "sassign" || o == "tracks") t.set("k", k).set("j", 1 + r.below(NSL));
  else if(o == "track") t.set("k", k).set("ob", ob).set("via", r.below(2));
  else if(o == "lock") t.set("k", k).set("m", 1 + r.below(NL));
  else if(o == "unlock") t.set("m", 1 + r.below(NL));
  else if(o == "call" || o == "become") t.set("k", k).set("v", r.below(100)).set("dr", r.chance(40) && nobj() ? ob : 0).set("x", r.chance(85) ? 0 : r.below(9) + 1).set("cst", r.below(2));
  else t.set("k", k);
  if((o == "expired" || o == "lock" || o == "call") && r.chance(40) && nobj()) t.set("fd", 1 + r.below(nobj())).set("fa", r.below(6));
  return true;
}
bool vf::d_close(Tok &t) {
  t = Tok("op");
  for(int m = 1; m <= NL; ++m) if(L[m]) { t.o = "unlock"; t.set("m", m); return true; }
  for(int k = 1; k <= NSL; ++k) if(S[k]) { t.o = "sdel"; t.set("k", k); return true; }
  for(int o = 1; o <= nobj(); ++o) if((*O)[o].own) { t.o = "odrop"; t.set("ob", o); return true; }
  return false;
}
void vf::d_exec(const Tok &t) {
  using namespace boost::placeholders;
  const std::string &o = t.o; int k = t.get("k"), j = t.get("j"), ob = t.get("ob"), m = t.get("m"), r = 0, x = 0;
  cur_fd = t.get("fd"); cur_fa = t.get("fa");
  if(!O) O = new std::vector<OE>(1);
  try {
    if(o == "onew") {
      OE e; e.kind = t.kind;
      if(e.kind == "b") { e.b.reset(new Obj(ob)); e.wb = e.b; } else if(e.kind == "s" || e.kind == "f") { e.s = std::make_shared<Obj>(ob); e.ws = e.s; }
      else if(e.kind == "t") e.t = new TObj(ob);
      else { e.g = new GSig; GFn f = {std::make_shared<Obj>(ob), 100 + ob, std::make_shared<int>(0)}; e.g->connect(f); }
      O->push_back(e);
    }
    else if(o == "odrop") do_drop(ob);
    else if(o == "snew") {
      int cv = t.get("cv"), via = t.get("via"); OE *e = ob ? &(*O)[ob] : 0;
      Fn f(t.get("f"));
      if(!e) S[k] = fresh(f, cv);
      else if(e->kind == "g") S[k] = fresh(*e->g, cv);
      else if(via == 0) S[k] = fresh(boost::bind<Res>(f, _1, boost::cref(*e->t)), cv);
      else if(via == 1) S[k] = cv == 0 ? (AnySlot*)new TA(SA(f, _1, boost::cref(*e->t))) : cv == 1 ? (AnySlot*)new TB(SB(f, _1, boost::cref(*e->t))) : (AnySlot*)new TC(SC(f, _1, boost::cref(*e->t)));
      else S[k] = fresh(boost::bind<Res>(f, _1, boost::ref(*e->t)), cv);
    }
    else if(o == "scopy") S[k] = conv(*S[j], t.get("cv"));
    else if(o == "sassign") S[k]->assign(*S[j]);
    else if(o == "sdel") { AnySlot *q = S[k]; S[k] = 0; delete q; }
    else if(o == "track") S[k]->track((*O)[ob], t.get("via"));
    else if(o == "tracks") S[k]->tracks(S[j]->cbase());
    else if(o == "ntrk") r = int(S[k]->cbase().tracked_objects().size());
    else if(o == "expired") r = S[k]->cbase().expired();
    else if(o == "lock") { bs::slot_base::locked_container_type q = S[k]->cbase().lock(); L[m] = new bs::slot_base::locked_container_type(q); }
    else if(o == "unlock") { bs::slot_base::locked_container_type *q = L[m]; L[m] = 0; delete q; }
    else if(o == "call") { cur_dr = t.get("dr"); cur_x = t.get("x"); Res q = t.get("cst") ? static_cast<const AnySlot*>(S[k])->ccall(t.get("v")) : S[k]->call(t.get("v")); r = q.v; }
    else if(o == "become") {
      cur_dr = t.get("dr"); cur_x = t.get("x"); int n = 0;
      try { Res q = S[k]->become(t.get("v"), n); r = q.v; if(n != 1) r = -50 - n; }
      catch(bs::no_slots_error &) { r = n == 0 ? -1 : -2; }
    }
  } catch(bs::expired_slot &) { x = EXPIRED; } catch(X &e) { x = e.code; } catch(...) { x = 88; }
  cur_dr = cur_x = cur_fd = 0;
  event("ret", kv("r", r) + kv("x", x));
}

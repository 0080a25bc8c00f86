// Driver for optional_last_value and last_value (spec/Combiners.tla).
#include "mini.hpp"
#include <boost/signals2.hpp>
#include <memory>
#include <list>
#include <stdexcept>
using namespace vf; namespace bs = boost::signals2;
struct X { int code; };
static const int EXPIRED = 99, NOSLOTS = 55, BADWEAK = 60, EXPIRED2 = 61, STDEXC = 62;
struct Expired2: bs::expired_slot {};   // an expired_slot, too
static const int CAN = 0x5afe;
// a value that notices being used after it was moved from or destroyed; "t" values throw when copied or moved
struct Val {
  int v, can; bool bomb;
  explicit Val(int v_ = 0, bool b = false): v(v_), can(CAN), bomb(b) {}
  void chk() const { if(bomb) throw X{v}; }
  Val(const Val &o): v(o.v), can(o.can), bomb(o.bomb) { chk(); }
  Val(Val &&o): v(o.v), can(o.can), bomb(o.bomb) { o.can = 1; chk(); }
  Val &operator=(const Val &o) { v = o.v; can = o.can; bomb = o.bomb; chk(); return *this; }
  Val &operator=(Val &&o) { int c = o.can; v = o.v; bomb = o.bomb; if(&o != this) o.can = 1; can = c; chk(); return *this; }
  ~Val() { can = 0; }
};
static int num(const Val &v) { return v.can == CAN ? v.v : -1; }
static int num(int v) { return v; }
static int num(const std::string &s) { return atoi(s.c_str() + 20); }
static int num(const std::unique_ptr<int> &p) { return p ? *p : -1; }
static std::map<int, Val*> *cells;      // objects references refer to
static Val &cell(int v) { NoFault nf; Val *&p = (*cells)[v]; if(!p) p = new Val(v); return *p; }
template<class T> struct Mk { static T mk(int v, bool) { return T(v); } };
template<> struct Mk<Val> { static Val mk(int v, bool b) { return Val(v, b); } };
template<> struct Mk<std::string> { static std::string mk(int v, bool) { return std::string(20, 'x') + std::to_string(v); } };
template<> struct Mk<std::unique_ptr<int> > { static std::unique_ptr<int> mk(int v, bool) { return std::unique_ptr<int>(new int(v)); } };
template<> struct Mk<Val&> { static Val &mk(int v, bool) { return cell(v); } };
template<> struct Mk<const Val&> { static const Val &mk(int v, bool) { return cell(v); } };
template<> struct Mk<void> { static void mk(int, bool) {} };
struct Plan { char k; int v, id; };
static void enter(const Plan &p) { event("call", kv("id", p.id)); if(p.k == 'x') { 
  switch(p.v) { case EXPIRED: throw bs::expired_slot(); case BADWEAK: throw boost::bad_weak_ptr(); case EXPIRED2: throw Expired2(); case STDEXC: throw std::runtime_error("x"); default: throw X{p.v}; } } }
template<class T> struct Slot { Plan p; typedef T result_type; T operator()() const { enter(p); return Mk<T>::mk(p.v, p.k == 't'); } };

struct Outcome { const char *k; int v; };
template<class R> struct Out { static Outcome of(R r) { Outcome o = {"val", num(r)}; return o; } };
template<class R> struct Out<boost::optional<R> > { static Outcome of(boost::optional<R> r) { Outcome o = {"none", 0}; if(r) { o.k = "val"; o.v = num(*r); } return o; } };
template<class T> static void same(T &r) { if(&r != &cell(r.v)) event("badref"); }
template<> struct Out<boost::optional<Val&> > { static Outcome of(boost::optional<Val&> r) { Outcome o = {"none", 0}; if(r) { same(*r); o.k = "val"; o.v = num(*r); } return o; } };
template<> struct Out<boost::optional<const Val&> > { static Outcome of(boost::optional<const Val&> r) { Outcome o = {"none", 0}; if(r) { same(*r); o.k = "val"; o.v = num(*r); } return o; } };
template<> struct Out<Val&> { static Outcome of(Val &r) { same(r); Outcome o = {"val", num(r)}; return o; } };

struct Subject { virtual ~Subject() {} virtual void connect(const Plan &p, bool front) = 0; virtual Outcome emit() = 0; virtual int n() = 0; };
template<class R, class T, class C> struct Caller { static Outcome go(bs::signal<T(), C> &s) { return Out<R>::of(s()); } };
template<class T, class C> struct Caller<void, T, C> { static Outcome go(bs::signal<T(), C> &s) { s(); Outcome o = {"void", 0}; return o; } };
template<class T, class C> struct SigSubject: Subject {
  bs::signal<T(), C> s;
  void connect(const Plan &p, bool front) { Slot<T> f = {p}; s.connect(f, front ? bs::at_front : bs::at_back); }
  Outcome emit() { return Caller<typename C::result_type, T, C>::go(s); }
  int n() { return int(s.num_slots()); }
};
// an input iterator whose dereferencing runs a function
template<class T> struct FnIter {
  typedef std::input_iterator_tag iterator_category; typedef typename std::remove_reference<T>::type value_type; typedef T reference; typedef value_type *pointer; typedef std::ptrdiff_t difference_type;
  typename std::list<Slot<T> >::const_iterator i;
  T operator*() const { return (*i)(); }
  FnIter &operator++() { ++i; return *this; }
  FnIter operator++(int) { FnIter o(*this); ++i; return o; }
  bool operator==(const FnIter &o) const { return i == o.i; }
  bool operator!=(const FnIter &o) const { return i != o.i; }
};
template<class R, class T, class C> struct RCaller { static Outcome go(const C &c, const std::list<Slot<T> > &l) { FnIter<T> a = {l.begin()}, b = {l.end()}; return Out<R>::of(c(a, b)); } };
template<class T, class C> struct RCaller<void, T, C> { static Outcome go(const C &c, const std::list<Slot<T> > &l) { FnIter<T> a = {l.begin()}, b = {l.end()}; c(a, b); Outcome o = {"void", 0}; return o; } };
template<class T, class C> struct RangeSubject: Subject {
  std::list<Slot<T> > l; C c;
  void connect(const Plan &p, bool front) { Slot<T> f = {p}; if(front) l.push_front(f); else l.push_back(f); }
  Outcome emit() { return RCaller<typename C::result_type, T, C>::go(c, l); }
  int n() { return int(l.size()); }
};
// a combiner that does what it is told: takes, copies, moves, steps, stops, throws
static std::vector<int> *PAT;
enum { TAKE = 1, TAKECOPY, MOVEOUT, STEP, LET, STOP, THROW, AGAIN, POST };
static const char *PN[] = {"", "take", "take", "move", "step", "let", "stop", "throw", "take", "post"};
template<class T> struct Seen { template<class V> static int of(V &v) { return num(v); } };
template<> struct Seen<Val&> { static int of(Val &v) { same(v); return num(v); } };
template<> struct Seen<const Val&> { static int of(const Val &v) { same(v); return num(v); } };
template<> struct Seen<void> { template<class V> static int of(V &) { return 0; } };
template<class T> struct MoveOut { template<class It> static int of(It &) { return 0; } static const bool can = false; };
template<> struct MoveOut<Val> { template<class It> static int of(It &i) { Val v(std::move(*i)); return num(v); } static const bool can = true; };
template<> struct MoveOut<std::unique_ptr<int> > { template<class It> static int of(It &i) { std::unique_ptr<int> v(std::move(*i)); return num(v); } static const bool can = true; };
template<class T> struct Post { template<class It> static void of(It &i) { i++; } };
template<> struct Post<std::unique_ptr<int> > { template<class It> static void of(It &) {} };
template<> struct Post<Val&> { template<class It> static void of(It &) {} };   // i++ does not compile for references
template<> struct Post<const Val&> { template<class It> static void of(It &) {} };
static void trouble() {
  try { throw; } catch(bs::expired_slot &e) { event("gotx", kv("v", dynamic_cast<Expired2*>(&e) ? EXPIRED2 : EXPIRED)); } catch(boost::bad_weak_ptr &) { event("gotx", kv("v", BADWEAK)); }
  catch(std::runtime_error &) { event("gotx", kv("v", STDEXC)); } catch(X &e) { event("gotx", kv("v", e.code)); } catch(...) { event("gotx", kv("v", 88)); }
}
template<class T> struct PatComb {
  typedef int result_type;
  template<class It> int operator()(It i, It e) const {
    for(size_t k = 0; k < PAT->size(); ++k) {
      int a = (*PAT)[k]; bool end = i == e;
      if(end != !(i != e)) event("badeq");
      if(end && (a < STOP || a > THROW)) continue;
      event("do", ks("a", PN[a]) + kv("end", end));
      switch(a) {
      case STEP: ++i; break;
      case POST: Post<T>::of(i); break;
      case STOP: return 5;
      case THROW: throw X{7};
      case LET: { int v = Seen<T>::of(*i); event("got", kv("v", v)); break; }
      default:
        try {
          int v;
          if(a == TAKE) v = Seen<T>::of(*i);
          else if(a == TAKECOPY) { It c(i); v = Seen<T>::of(*c); if(Seen<T>::of(*i) != v || !(c == i)) v = -9; }
          else if(a == AGAIN) { const It c = i; v = Seen<T>::of(*c); It d(e); d = c; if(Seen<T>::of(*d) != v) v = -9; }
          else v = MoveOut<T>::of(i);
          event("got", kv("v", v));
        } catch(...) { trouble(); }
      }
    }
    event("do", ks("a", "stop") + kv("end", i == e));
    return 5;
  }
};
static Subject *SU; static int CF = -1, nid;
static Subject *make(int k) {
  typedef std::unique_ptr<int> U;
  switch(k) {
  case 0: return new SigSubject<Val, bs::signal<Val()>::combiner_type>;   // the default combiner
  case 1: return new SigSubject<Val, bs::last_value<Val> >;
  case 2: return new SigSubject<void, bs::signal<void()>::combiner_type>;
  case 3: return new SigSubject<void, bs::last_value<void> >;
  case 4: return new SigSubject<Val&, bs::optional_last_value<Val&> >;
  case 5: return new SigSubject<Val&, bs::last_value<Val&> >;
  case 6: return new SigSubject<U, bs::optional_last_value<U> >;
  case 7: return new SigSubject<std::string, bs::last_value<std::string> >;
  case 8: return new RangeSubject<Val, bs::optional_last_value<Val> >;
  case 9: return new RangeSubject<Val, bs::last_value<Val> >;
  case 10: return new RangeSubject<void, bs::optional_last_value<void> >;
  case 11: return new RangeSubject<void, bs::last_value<void> >;
  case 12: return new SigSubject<int, bs::optional_last_value<int> >;
  case 13: return new SigSubject<const Val&, bs::optional_last_value<const Val&> >;
  case 14: return new SigSubject<Val, PatComb<Val> >;
  case 15: return new SigSubject<void, PatComb<void> >;
  case 16: return new SigSubject<Val&, PatComb<Val&> >;
  case 17: return new SigSubject<const Val&, PatComb<const Val&> >;
  case 18: return new SigSubject<U, PatComb<U> >;
  case 19: return new SigSubject<std::string, PatComb<std::string> >;
  default: return new SigSubject<int, PatComb<int> >;
  }
}
void vf::d_reset() { delete SU; SU = 0; CF = -1; nid = 0; if(cells) for(auto &p : *cells) delete p.second; delete cells; cells = 0; }
bool vf::d_gen(Rng &r, const Profile &p, Tok &t) {
  if(!SU) { t = Tok("op", "begin"); t.set("cf", r.chance(p.get("pat", 30)) ? 14 + r.below(7) : r.below(14)); return true; }
  int q = r.below(100);
  if(q < 60) { t = Tok("op", "connect"); int z = r.below(100); bool b = z >= 92 && (CF == 0 || CF == 1 || CF == 8 || CF == 9 || CF == 14);
    t.kind = z < 55 ? "v" : b ? "t" : "x"; t.set("v", z < 55 ? (r.below(5) ? 100 + r.below(5) : 0) : b ? 1 + r.below(9) : z < 79 ? EXPIRED : z < 82 ? EXPIRED2 : z < 85 ? BADWEAK : z < 87 ? STDEXC : 1 + r.below(9)).set("fr", r.below(3) == 0).set("sid", nid + 1); return true; }
  if(q < 90) { t = Tok("op", "emit"); if(CF >= 14) { t.has_trk = true; int n = 1 + r.below(24); bool plain = r.chance(30);
      for(int i = 0; i < n; ++i) { int z = r.below(100); int a = plain ? 1 + 3 * (i & 1) : z < 22 ? TAKE : z < 34 ? TAKECOPY : z < 42 ? AGAIN : z < 50 ? MOVEOUT : z < 84 ? STEP : z < 90 ? POST : z < 96 ? LET : z < 98 ? STOP : THROW;
        if((a == MOVEOUT && CF != 14 && CF != 18) || (a == POST && CF >= 16 && CF <= 18)) a = TAKE;
        t.trk.push_back(a); } }
    return true; }
  t = Tok("op", "num"); return true;
}
bool vf::d_valid(const Tok &t) { return (t.o == "begin") == !SU && !(t.o == "begin" && (t.get("cf") < 0 || t.get("cf") > 20)) && !(t.o == "emit" && (CF >= 14) != t.has_trk); }
bool vf::d_close(Tok &) { return false; }
void vf::d_exec(const Tok &t) {
  Outcome o = {"done", 0};
  try {
    if(t.o == "begin") { cells = new std::map<int, Val*>; CF = t.get("cf"); SU = make(CF); }
    else if(t.o == "connect") { Plan p = {t.kind[0], t.get("v"), t.get("sid")}; nid = p.id; SU->connect(p, t.get("fr")); }
    else if(t.o == "num") o.v = SU->n();
    else { std::vector<int> pat(t.trk); PAT = &pat; o = SU->emit(); }
  } catch(bs::expired_slot &e) { o.k = "exc"; o.v = dynamic_cast<Expired2*>(&e) ? EXPIRED2 : EXPIRED; } catch(boost::bad_weak_ptr &) { o.k = "exc"; o.v = BADWEAK; } catch(bs::no_slots_error &) { o.k = "exc"; o.v = NOSLOTS; } catch(X &e) { o.k = "exc"; o.v = e.code; } catch(std::runtime_error &) { o.k = "exc"; o.v = STDEXC; } catch(...) { o.k = "exc"; o.v = 88; }
  event("ret", ks("k", o.k) + kv("v", o.v));
}

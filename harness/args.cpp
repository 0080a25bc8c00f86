// Driver for argument passing (spec/Args.tla): every signature, plain, extended and chained slots, slot objects.
#include "mini.hpp"
#include <boost/signals2.hpp>
#include <boost/ref.hpp>
#include <functional>
#include <memory>
using namespace vf; namespace bs = boost::signals2;
struct X { int code; };
static const int CAN = 0x5afe;
struct Val {     // a value that can tell it was moved from or destroyed
  int v, can; explicit Val(int v_ = 0): v(v_), can(CAN) {}
  Val(const Val &o): v(o.v), can(o.can) {}
  Val(Val &&o): v(o.v), can(o.can) { o.v = -1; }
  Val &operator=(const Val &o) { v = o.v; can = o.can; return *this; }
  Val &operator=(Val &&o) { v = o.v; can = o.can; if(this != &o) o.v = -1; return *this; }
  ~Val() { can = 0; v = -2; }
};
struct Res { int v, can; explicit Res(int v_ = 0): v(v_), can(CAN) {} Res(const Res &o): v(o.v), can(o.can) {} Res &operator=(const Res &o) { v = o.v; can = o.can; return *this; } ~Res() { can = 0; } };
struct Plan { int id, w, r, x; };
static Val *VARS;                       // the caller's objects
static std::string arr(const std::vector<int> &a) { std::string s = ",\"a\":["; for(size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(a[i]); return s + "]"; }

template<char K> struct P_; template<> struct P_<'V'> { typedef Val T; }; template<> struct P_<'R'> { typedef Val &T; }; template<> struct P_<'C'> { typedef const Val &T; }; template<> struct P_<'P'> { typedef Val *T; };
template<char K> struct Look;    // read the argument, check identity, then write
template<> struct Look<'V'> { static int see(Val &a, int, bool &ok) { ok &= a.can == CAN; return a.v; } static void write(Val &a, int) { a.v = -5; } };
template<> struct Look<'R'> { static int see(Val &a, int j, bool &ok) { ok &= &a == &VARS[j]; return a.v; } static void write(Val &a, int w) { a.v += w; } };
template<> struct Look<'C'> { static int see(const Val &a, int j, bool &ok) { ok &= &a == &VARS[j]; return a.v; } static void write(const Val &, int) {} };
template<> struct Look<'P'> { static int see(Val *a, int j, bool &ok) { ok &= a == &VARS[j]; return a->v; } static void write(Val *a, int w) { a->v += w; } };
template<char... K> struct Body {
  static Res go(const Plan &p, bool ok, typename P_<K>::T &... a) {
    NoFault nf; std::vector<int> seen; int j = 0;
    int dummy[] = {0, (seen.push_back(Look<K>::see(a, j, ok)), ++j)...}; (void)dummy;
    event("call", kv("id", p.id) + arr(seen) + kv("ok", ok));
    int dummy2[] = {0, (Look<K>::write(a, p.w), 0)...}; (void)dummy2;
    if(p.x) throw X{p.x};
    return Res(p.r);
  }
};
template<char... K> struct F { Plan p; typedef Res result_type; Res operator()(typename P_<K>::T... a) const { return Body<K...>::go(p, true, a...); } };
template<char... K> struct FX { Plan p; std::shared_ptr<bs::connection> self; typedef Res result_type;
  Res operator()(const bs::connection &c, typename P_<K>::T... a) const { return Body<K...>::go(p, c.connected() && (*self == bs::connection() || c == *self), a...); } };
template<char... K> struct FM { Plan p; Res mem(typename P_<K>::T... a) { return Body<K...>::go(p, true, a...); } };
struct Fold { typedef Res result_type; template<class It> Res operator()(It a, It b) const { int acc = 1; for(; a != b; ++a) { const Res &r = *a; acc = (acc * 7 + (r.can == CAN ? r.v : -99)) % 10007; } return Res(acc); } };
struct Subject { virtual ~Subject() {} virtual void connect(const Plan &p, int to, bool ext, bool fr, int st) = 0; virtual void chain(bool fr) = 0; virtual int n() = 0;
  virtual Res emit(bool cst, bool rv) = 0; virtual Res direct(const Plan &p, bool cst, int st) = 0; };
template<char K> struct Pass; template<> struct Pass<'V'> { static Val &l(int j) { return VARS[j]; } static Val r(int j) { return Val(VARS[j]); } };
template<> struct Pass<'R'> { static Val &l(int j) { return VARS[j]; } static Val &r(int j) { return VARS[j]; } };
template<> struct Pass<'C'> { static const Val &l(int j) { return VARS[j]; } static const Val &r(int j) { return VARS[j]; } };
template<> struct Pass<'P'> { static Val *l(int j) { return &VARS[j]; } static Val *r(int j) { return &VARS[j]; } };
template<int... I> struct Idx {}; template<int N, int... I> struct MkIdx: MkIdx<N - 1, N - 1, I...> {}; template<int... I> struct MkIdx<0, I...> { typedef Idx<I...> T; };
// extended slots need one more parameter than boost::function's most, and without rvalue references no T&
template<char... K> struct HasR; template<> struct HasR<> { static const bool value = false; };
template<char A, char... K> struct HasR<A, K...> { static const bool value = A == 'R' || HasR<K...>::value; };
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
template<char... K> struct CanExt { static const bool value = !HasR<K...>::value && sizeof...(K) < 9; };
#else
template<char... K> struct CanExt { static const bool value = sizeof...(K) < 10; };
#endif
template<char... K> struct Sub: Subject {
  typedef Res Signature(typename P_<K>::T...);
  typedef bs::signal<Signature, Fold> Sig;
  typedef typename Sig::slot_type Slot;
  Sig in, out;            // inner, outer
  std::vector<std::shared_ptr<F<K...> > > keep; std::vector<std::shared_ptr<FM<K...> > > keepm;
  Slot mk(const Plan &p, int st) {
    F<K...> f = {p};
    if(st == 1) { keep.push_back(std::make_shared<F<K...> >(f)); return Slot(boost::ref(*keep.back())); }
    if(st == 2) { std::function<Signature> g(f); return Slot(g); }
    return Slot(f);
  }
  void connect(const Plan &p, int to, bool ext, bool fr, int st) {
    Sig &s = to ? in : out; bs::connect_position pos = fr ? bs::at_front : bs::at_back;
    if(ext) con_ext(s, p, pos, st, std::integral_constant<bool, CanExt<K...>::value>()); else s.connect(mk(p, st), pos);
  }
  void con_ext(Sig &s, const Plan &p, bs::connect_position pos, int, std::true_type) { FX<K...> f = {p, std::make_shared<bs::connection>()}; bs::connection c = s.connect_extended(f, pos); *f.self = c; }
  void con_ext(Sig &s, const Plan &p, bs::connect_position pos, int st, std::false_type) { s.connect(mk(p, st), pos); }
  void chain(bool fr) { out.connect(in, fr ? bs::at_front : bs::at_back); }
  int n() { return sizeof...(K); }
  template<int... I> Res go(Idx<I...>, bool cst, bool rv) {
    const Sig &c = out;
    if(rv) return cst ? c(Pass<K>::r(I)...) : out(Pass<K>::r(I)...);
    return cst ? c(Pass<K>::l(I)...) : out(Pass<K>::l(I)...);
  }
  Res emit(bool cst, bool rv) { return go(typename MkIdx<sizeof...(K)>::T(), cst, rv); }
  template<int... I> Res god(Idx<I...>, const Plan &p, bool cst, int st) {
    Slot s = mk(p, st); const Slot &c = s;
    return cst ? c(Pass<K>::l(I)...) : s(Pass<K>::l(I)...);
  }
  Res direct(const Plan &p, bool cst, int st) { return god(typename MkIdx<sizeof...(K)>::T(), p, cst, st); }
};
#ifndef NSIGS
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
#define NSIGS 15
#else
#define NSIGS 16
#endif
#endif
static Subject *make(int k) {
  switch(k) {
  case 0: return new Sub<>; case 1: return new Sub<'V'>; case 2: return new Sub<'R'>; case 3: return new Sub<'C'>; case 4: return new Sub<'P'>;
  case 5: return new Sub<'V','R'>; case 6: return new Sub<'R','V'>; case 7: return new Sub<'V','V'>; case 8: return new Sub<'C','R','V'>;
  case 9: return new Sub<'V','R','V','R'>; case 10: return new Sub<'R','R','R','R','R'>; case 11: return new Sub<'V','C','R','P','V','R'>;
  case 12: return new Sub<'V','V','V','V','V','V','V'>; case 13: return new Sub<'R','V','C','P','R','V','C','P'>;
  case 14: return new Sub<'V','R','V','R','V','R','V','R','V'>;
#if NSIGS > 15
  case 15: return new Sub<'V','R','C','P','V','R','C','P','V','R'>;
#endif
  }
  return 0;
}
static Subject *SU; static int nid, nchain;
static bool called(const Tok &t) { return t.o == "emit" || t.o == "direct"; }
static std::string more(const Tok &t) { return called(t) ? arr(t.trk) : ""; }
void vf::d_reset() { delete SU; SU = 0; nid = 0; nchain = 0; delete[] VARS; VARS = 0; }
bool vf::d_gen(Rng &r, const Profile &p, Tok &t) {
  if(!SU) { t = Tok("op", "begin"); t.set("cf", r.below(NSIGS)); return true; }
  int q = r.below(100);
  if(q < 45) { t = Tok("op", "connect"); t.kind = r.chance(30) ? "x" : "p"; t.set("to", r.chance(35)).set("fr", r.chance(30)).set("sid", nid + 1).set("w", r.below(4)).set("r", r.below(1000)).set("x", r.chance(6) ? 1 + r.below(9) : 0).set("st", r.below(3)); }
  else if(q < 55) { t = Tok("op", "chain"); t.set("fr", r.below(2)); }
  else if(q < 90) { t = Tok("op", "emit"); t.set("b", r.below(1000)).set("cst", r.below(2)).set("rv", r.below(2)); }
  else { t = Tok("op", "direct"); t.set("sid", 900).set("w", r.below(4)).set("r", r.below(1000)).set("x", r.chance(10) ? 3 : 0).set("b", r.below(1000)).set("cst", r.below(2)).set("st", r.below(3)); }
  return true;
}
bool vf::d_valid(const Tok &t) {
  if((t.o == "begin") != !SU) return false;
  if(t.o == "begin") return t.get("cf") >= 0 && t.get("cf") < NSIGS;
  if(t.o == "chain") return nchain < 3;
  // the arguments: derived from the base b
  if(called(t)) { extra() = more; Tok &m = const_cast<Tok&>(t); m.trk.clear(); for(int j = 1; j <= SU->n(); ++j) m.trk.push_back(t.get("b") * j + 1); }
  return true;
}
bool vf::d_close(Tok &) { return false; }
static Res res(int v) { return Res(v); }
void vf::d_exec(const Tok &t) {
  int r = 0, x = 0; std::vector<int> fin; Plan p = {t.get("sid"), t.get("w"), t.get("r"), t.get("x")};
  bool call = t.o == "emit" || t.o == "direct";
  try {
    if(t.o == "begin") SU = make(t.get("cf"));
    else if(t.o == "connect") { nid = p.id; SU->connect(p, t.get("to"), t.kind == "x", t.get("fr"), t.get("st")); }
    else if(t.o == "chain") { ++nchain; SU->chain(t.get("fr")); }
    else {
      delete[] VARS; VARS = new Val[SU->n() + 1]; for(int j = 0; j < SU->n(); ++j) VARS[j].v = t.trk[j];
      Res q = t.o == "emit" ? SU->emit(t.get("cst"), t.get("rv")) : SU->direct(p, t.get("cst"), t.get("st"));
      r = q.can == CAN ? q.v : -98;
    }
  } catch(X &e) { x = e.code; } catch(...) { x = 88; }
  if(call) for(int j = 0; j < SU->n(); ++j) fin.push_back(VARS[j].can == CAN ? VARS[j].v : -97);
  event("ret", kv("r", r) + kv("x", x) + arr(fin));
}

// Driver for long histories (spec/Garbage.tla): what a signal retains, measured by the memory it holds.
#include "mini.hpp"
#include <boost/signals2.hpp>
#include <boost/shared_ptr.hpp>
#include <list>
using namespace vf; namespace bs = boost::signals2;
// the driver's own data do not count
template<class T> struct MA { typedef T value_type; MA() {} template<class U> MA(const MA<U> &) {} T *allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); } void deallocate(T *p, size_t) { free(p); }
  template<class U> struct rebind { typedef MA<U> other; }; bool operator==(const MA &) const { return true; } bool operator!=(const MA &) const { return false; } };
template<class T> using Vec = std::vector<T, MA<T> >;
struct Label { long v; };                              // order of groups that can always be extended
struct Pos { const Label *l; };
struct Less { bool operator()(const Pos &a, const Pos &b) const { return a.l->v < b.l->v; } };
static bool early; static Vec<int> *calls;
struct Comb { typedef void result_type; template<class It> void operator()(It a, It b) const { for(; a != b; ++a) { *a; if(early) break; } } };
typedef bs::signal<void(int), Comb, Pos, Less> Sig;
static void pending_action();
struct Fn { int id; void operator()(int) const { calls->push_back(id); pending_action(); } };
struct Live { int id, z; bs::connection c; boost::shared_ptr<int> t; };
struct S {
  Sig s; std::list<Live, MA<Live> > l; std::list<Label, MA<Label> > order; std::map<int, std::list<Label, MA<Label> >::iterator, std::less<int>, MA<std::pair<const int, std::list<Label, MA<Label> >::iterator> > > place;
  Label g; int cap, nid; long base, u, d, mx; int act; bool fin;
  S(): cap(0), nid(0), base(0), u(0), d(1), mx(0), act(0), fin(false) { g.v = 0; }
  long dead() { long x = g_live - base; for(std::list<Live, MA<Live> >::iterator i = l.begin(); i != l.end(); ++i) x -= u + (i->t ? 3 : 0); return x <= 0 ? 0 : (x + d - 1) / d; }
  void note() { long x = dead(); if(x > mx) mx = x; }
};
static S *su;
static void settlebase(S &s) {     // how many blocks a live and a dead connection take
  s.base = g_live; Sig::slot_type f((Fn()));
  { Sig t; long a = g_live; const int n = 32; bs::connection c[n]; Pos p = {&s.g}; t.connect(p, f); c[0] = t.connect(p, f);
    long b = g_live; for(int i = 1; i < n; ++i) c[i] = t.connect(p, f); s.u = (g_live - b + n - 2) / (n - 1);
    for(int i = 0; i < n; ++i) { c[i].disconnect(); c[i] = bs::connection(); } (void)a;
    long e = g_live - b; s.d = (e + n - 1) / n; if(s.d < 1) s.d = 1; }
  calls->clear();
}
static int connect(S &s, int z, bool front, bool tr, const Label *at) {
  Live x; x.id = ++s.nid; x.z = z; Fn f = {x.id}; Sig::slot_type q(f);
  if(tr) { x.t.reset(new int(0)); q.track(x.t); }
  Pos p = {at};
  x.c = z == 1 ? s.s.connect(p, q, front ? bs::at_front : bs::at_back) : s.s.connect(q, z == 0 ? bs::at_front : bs::at_back);
  std::list<Live, MA<Live> >::iterator i = s.l.begin();      // in order
  if(at != &s.g && z == 1) { while(i != s.l.end() && s.place[i->id]->v < at->v) ++i; }
  else if(z == 2) i = s.l.end(); else if(z == 1 && !front) { while(i != s.l.end() && i->z <= 1) ++i; } else if(z == 1) { while(i != s.l.end() && i->z == 0) ++i; }
  s.l.insert(i, x); return x.id;
}
static const Label *mklabel(S &s, int id, int after) {
  std::list<Label, MA<Label> >::iterator i = s.order.begin(); if(after) { i = s.place[after]; ++i; }
  Label n = {0}; i = s.order.insert(i, n); s.place[id] = i; long v = 1; for(std::list<Label, MA<Label> >::iterator j = s.order.begin(); j != s.order.end(); ++j) j->v = v++;
  return &*i;
}
static void pending_action() {
  S &s = *su; int a = s.act; s.act = 0;
  if(a == 6) connect(s, 2, false, false, &s.g);
  else if(a == 18) { s.l.front().c.disconnect(); s.l.pop_front(); }
  else if(a < 0) { int id = s.nid + 1, after = -a - 1; const Label *p = mklabel(s, id, after); connect(s, 1, false, false, p); }
}
typedef std::list<Live, MA<Live> >::iterator It;
static It pick(S &s, int code) {
  if(s.l.empty()) return s.l.end();
  if(code == 13) return s.l.begin(); if(code == 14) return --s.l.end();
  It b = s.l.end(); for(It i = s.l.begin(); i != s.l.end(); ++i) if((code != 17 || i->t) && (b == s.l.end() || (code == 12 ? i->id > b->id : i->id < b->id))) b = i; return b;
}
static void kill(S &s, It i) { if(i == s.l.end()) return; i->c.disconnect(); s.l.erase(i); }
static void emit(S &s, bool e, bool cst) { early = e; const Sig &c = s.s; if(cst) c(0); else s.s(0); early = false; }
static void step(S &s, int code) {
  bool room = int(s.l.size()) < s.cap;
  switch(code) {
  case 1: if(room) connect(s, 2, false, false, &s.g); break; case 2: if(room) connect(s, 0, true, false, &s.g); break;
  case 3: if(room) connect(s, 1, false, false, &s.g); break; case 4: if(room) connect(s, 1, true, false, &s.g); break;
  case 5: if(room) connect(s, 2, false, true, &s.g); break; case 7: if(room) connect(s, 0, true, true, &s.g); break;
  case 6: if(room && !s.l.empty()) { s.act = 6; emit(s, false, false); } break;
  case 11: case 12: case 13: case 14: kill(s, pick(s, code)); break;
  case 15: s.l.clear(); s.s.disconnect_all_slots(); break;
  case 16: { Pos p = {&s.g}; for(It i = s.l.begin(); i != s.l.end();) if(i->z == 1) i = s.l.erase(i); else ++i; s.s.disconnect(p); break; }
  case 17: { It i = pick(s, 17); if(i != s.l.end()) s.l.erase(i); break; }       // the object dies, the connection is told nothing
  case 18: if(!s.l.empty()) { s.act = 18; emit(s, false, true); } break;
  case 21: emit(s, false, false); break; case 22: emit(s, true, false); break; case 23: emit(s, false, true); break; case 24: s.s.num_slots(); break; case 25: s.s.empty(); break;
  }
  calls->clear(); s.note();
}
static std::string arr(const char *k, const int *a, size_t n) { std::string s = std::string(",\"") + k + "\":["; for(size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(a[i]); return s + "]"; }
static std::string more(const Tok &t) { return t.o == "rep" ? arr("w", t.trk.data(), t.trk.size()) : ""; }
void vf::d_reset() { delete su; su = 0; delete calls; calls = 0; extra() = more; }
bool vf::d_gen(Rng &r, const Profile &p, Tok &t) {
  static const int codes[] = {1,1,1,2,2,3,3,4,5,5,6,7,11,11,12,13,13,14,14,15,16,17,17,18,21,21,22,23,24,25};
  if(!su) { t = Tok("op", "begin"); t.set("cap", 1 + r.below(p.get("cap", 5))); return true; }
  t = Tok("op", "rep"); t.has_trk = true; int n = 2 + r.below(p.get("word", 7)); for(int i = 0; i < n; ++i) { int q = codes[r.below(30)]; t.trk.push_back(q); }
  bool con = false, lazy = false, ex = false; for(int i = 0; i < n; ++i) { con |= t.trk[i] < 10; lazy |= t.trk[i] == 22; ex |= t.trk[i] == 17; }
  if(!con) t.trk[0] = 1 + r.below(5);
  t.set("n", 40 + r.below(p.get("n", 300))).set("fin", r.below(2)); return true;
}
bool vf::d_valid(const Tok &t) {
  if((t.o == "begin") != !su) return false;
  if(t.o == "begin") return t.get("cap") >= 1;
  S &s = *su; int id = t.get("sid");
  if(t.o == "con" || t.o == "emcon") return id == s.nid + 1 && int(s.l.size()) < s.cap && (t.get("after") == 0 || s.place.count(t.get("after"))) && (t.o == "con" || !s.l.empty());
  if(t.o == "dis" || t.o == "exp") { for(It i = s.l.begin(); i != s.l.end(); ++i) if(i->id == id) return t.o == "dis" || i->t; return false; }
  if(t.o == "rep") return s.order.empty();
  return true;
}
bool vf::d_close(Tok &) { return false; }
void vf::d_exec(const Tok &t) {
  if(t.o == "begin") { calls = new Vec<int>; calls->reserve(1024); su = new S; su->cap = t.get("cap"); settlebase(*su); event("ret", arr("a", 0, 0) + kv("mx", 0)); return; }
  S &s = *su; s.mx = 0; calls->clear(); int id = t.get("sid");
  if(t.o == "con") { const Label *p = mklabel(s, id, t.get("after")); connect(s, 1, false, t.get("tr"), p); }
  else if(t.o == "emcon") { s.act = -t.get("after") - 1; emit(s, false, false); }
  else if(t.o == "dis" || t.o == "exp") { It i = s.l.begin(); while(i->id != id) ++i; if(t.o == "exp") s.l.erase(i); else kill(s, i); }
  else if(t.o == "em") emit(s, false, false);
  else if(t.o == "em1") emit(s, true, false);
  else if(t.o == "rep") { for(int k = 0; k < t.get("n"); ++k) for(size_t i = 0; i < t.trk.size(); ++i) step(s, t.trk[i]); calls->clear(); if(t.get("fin")) emit(s, false, true); }
  s.note();
  event("ret", arr("a", calls->data(), calls->size()) + kv("mx", s.mx) + kv("u", s.u) + kv("d", s.d));
}

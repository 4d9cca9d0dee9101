// P20: two getters of the generated class in two threads.
// Each call's memory accesses are recorded on the instrumented real code, alone, in its own thread; all interleavings
// of two recorded calls are the models of an order constraint, and the solver is asked for one in which a read sees a
// value it does not see alone.  A model is executed on the real code by steering the two threads through that order.
#include "wrapgen.hpp"
#include "../engine/conc_rt.hpp"
#include "../engine/report.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
using namespace vf;
typedef std::vector<double> Out;
typedef Eigen::VectorXd Vec;
struct Call { std::string name; bool setter; std::function<std::function<Out()>(Cls&)> run; };   // run: the call; the result is flattened later
template <class M> Out flat(const M& m) { Out v; for (long j = 0; j < m.cols(); j++) for (long i = 0; i < m.rows(); i++) v.push_back(m(i, j)); return v; }
#define X(n) template <class T> auto g_##n(T& t, int) -> decltype(t.get_##n(), std::function<Out()>()) { auto r = t.get_##n(); return [r]() { return flat(r); }; } template <class T> std::function<Out()> g_##n(T&, long) { return nullptr; }
WRAP_FUNS(X)
#undef X
static unsigned sd = 1;
static Vec rv(int n) { Vec v(n); for (int i = 0; i < n; i++) v(i) = rnd(sd) * 1.5 + 0.01; return v; }
static std::vector<Call> calls() {
  std::vector<Call> c;
#define X(n) c.push_back({"get_" #n, false, [](Cls& t) { return g_##n(t, 0); }});
  WRAP_FUNS(X)
#undef X
  return c;
}
static std::vector<Call> setterCalls() {
  std::vector<Call> c; static Cls probe;
#define S(x, sz) { Vec* v = new Vec(rv((int)(sz))); c.push_back({"set_" #x, true, [v](Cls& t) { t.set_##x(*v); return std::function<Out()>([]() { return Out(); }); }}); }
  int n = probe.n_joints, e = probe.numElasticJoints;
  S(q, n) S(dq, n) S(ddq, n) S(d3q, n) S(d4q, n) S(dqr, n) S(ddqr, n) S(x, e) S(dx, e) S(ddx, e) S(ddxr, e) S(w, 6)
  S(par_K, probe.get_par_K().size()) S(par_D, probe.get_par_D().size()) S(par_Dm, probe.get_par_Dm().size()) S(par_Mm, probe.get_par_Mm().size()) S(par_Dl, probe.get_par_Dl().size()) S(par_gravity, probe.get_par_gravity().size())
  { Vec* v = new Vec(rv(10 * n)); c.push_back({"set_par_DYN", true, [v](Cls& t) { t.set_par_DYN(*v); return std::function<Out()>([]() { return Out(); }); }}); c.push_back({"set_par_REG", true, [v](Cls& t) { t.set_par_REG(*v); return std::function<Out()>([]() { return Out(); }); }}); }
  return c;
}
static void fill(Cls& t) {
  int n = t.n_joints, e = t.numElasticJoints;
  t.set_q(rv(n)); t.set_dq(rv(n)); t.set_ddq(rv(n)); t.set_d3q(rv(n)); t.set_d4q(rv(n)); t.set_dqr(rv(n)); t.set_ddqr(rv(n)); t.set_x(rv(e)); t.set_dx(rv(e)); t.set_ddx(rv(e)); t.set_ddxr(rv(e)); t.set_w(rv(6));
  Vec d(10 * n); for (int i = 0; i < 10 * n; i++) d(i) = rnd(sd) + (i % 10 == 0 ? 2 : 0); t.set_par_DYN(d);
#define P(g) t.set_##g(rv((int)t.get_##g().size()));
  P(par_gravity) P(par_Dl) P(par_K) P(par_D) P(par_Dm) P(par_Mm)
}
struct Solo { rt::Trace t; Out out; uint64_t mark[2] = {0, 0}; bool ok = false; };
template <class T> void put(std::string& s, const T& x) { s.append((const char*)&x, sizeof x); }
template <class T> T take(const char*& p) { T x; memcpy(&x, p, sizeof x); p += sizeof x; return x; }
// runs f in a child process with the same starting state; returns what it writes
static bool inChild(const std::function<std::string()>& f, std::string& out) {
  int fd[2]; if (pipe(fd)) return false;
  fflush(stdout); pid_t p = fork();
  if (p == 0) {
    close(fd[0]); alarm(60); std::string s = f(); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += (size_t)k; } _exit(0);
  }
  close(fd[1]); out.clear(); char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, (size_t)k); close(fd[0]);
  int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static uint64_t tlsMark() { static thread_local char m; return (uint64_t)&m; }
struct Two { std::atomic<int> go{0}; };
// both threads exist; only thread <slot> runs the call, recorded
static Solo solo(const Call& c, Cls& t, int slot) {
  std::string s; Solo r;
  r.ok = inChild([&]() {
    std::string o; rt::Trace tr; tr.ev.reserve(4096); std::function<Out()> res; uint64_t mark[2] = {0, 0}; std::atomic<int> ready{0};
    auto body = [&](int me) {
      ready++; while (ready.load() < 2) std::this_thread::yield();
      if (me == slot) { char here; mark[0] = tlsMark(); mark[1] = (uint64_t)&here; rt::begin(me, &tr); res = c.run(t); rt::end(); }
      ready++; while (ready.load() < 4) std::this_thread::yield();
    };
    std::thread a(body, 0), b(body, 1); a.join(); b.join();
    Out v = res ? res() : Out(); put(o, (uint64_t)v.size()); for (double x : v) put(o, x); put(o, mark[0]); put(o, mark[1]); put(o, (uint64_t)(tr.complete ? tr.ev.size() : 0)); put(o, (char)tr.complete);
    if (tr.complete) for (auto& e : tr.ev) { put(o, e.addr); put(o, e.size); put(o, e.kind); put(o, (uint32_t)e.val.size()); o += e.val; }
    return o; }, s);
  if (!r.ok || s.empty()) { r.ok = false; return r; }
  const char* p = s.data(); uint64_t n = take<uint64_t>(p); for (uint64_t i = 0; i < n; i++) r.out.push_back(take<double>(p)); r.mark[0] = take<uint64_t>(p); r.mark[1] = take<uint64_t>(p); n = take<uint64_t>(p); r.t.complete = take<char>(p);
  for (uint64_t i = 0; i < n; i++) { rt::Ev e; e.addr = take<uint64_t>(p); e.size = take<uint32_t>(p); e.kind = take<uint8_t>(p); uint32_t k = take<uint32_t>(p); e.val.assign(p, k); p += k; r.t.ev.push_back(e); }
  r.ok = r.t.complete; return r;
}
// both calls, steered; returns the two results
static bool both(const Call& c0, Cls& t0, const Call& c1, Cls& t1, const std::vector<std::pair<int, int>>& order, Out& o0, Out& o1) {
  std::string s;
  bool ok = inChild([&]() {
    std::function<Out()> r[2]; std::atomic<int> ready{0}; rt::schedule(order);
    auto body = [&](int me) { ready++; while (ready.load() < 2) std::this_thread::yield(); rt::begin(me, nullptr); r[me] = (me ? c1 : c0).run(me ? t1 : t0); rt::end(); };
    std::thread a(body, 0), b(body, 1); a.join(); b.join(); std::string o; put(o, (char)rt::diverged());
    for (auto& f : r) { Out v = f ? f() : Out(); put(o, (uint64_t)v.size()); for (double x : v) put(o, x); }
    return o; }, s);
  if (!ok || s.empty()) return false;
  const char* p = s.data(); if (take<char>(p)) return false;
  for (Out* o : {&o0, &o1}) { o->clear(); uint64_t n = take<uint64_t>(p); for (uint64_t i = 0; i < n; i++) o->push_back(take<double>(p)); }
  return true;
}
typedef std::vector<std::pair<uint64_t, uint64_t>> Ivs;
static Ivs intervals(const rt::Trace& t, bool writes) {
  Ivs v; for (auto& e : t.ev) if (e.kind != rt::LOCK && e.kind != rt::UNLOCK && (!writes || e.kind != rt::READ)) v.push_back({e.addr, e.addr + e.size});
  std::sort(v.begin(), v.end()); Ivs o; for (auto& x : v) if (o.size() && x.first <= o.back().second) o.back().second = std::max(o.back().second, x.second); else o.push_back(x);
  return o;
}
static std::string in(const char* p, const Ivs& v) {
  if (v.empty()) return "false"; std::string s = "(or false"; for (auto& x : v) s += std::string(" (and (<= ") + std::to_string(x.first) + " " + p + ") (< " + p + " " + std::to_string(x.second) + "))"; return s + ")";
}
static bool hit(const rt::Ev& e, const Ivs& v) { for (auto& x : v) if (e.addr < x.second && x.first < e.addr + e.size) return true; return false; }
static bool overlap(const rt::Ev& a, const rt::Ev& b) { return a.addr < b.addr + b.size && b.addr < a.addr + a.size; }
static Ivs meet(const Ivs& a, const Ivs& b) { Ivs o; size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { uint64_t lo = std::max(a[i].first, b[j].first), hi = std::min(a[i].second, b[j].second); if (lo < hi) o.push_back({lo, hi}); (a[i].second < b[j].second ? i : j)++; } return o; }
static bool sameNum(double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }
static bool sameOut(const Out& a, const Out& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if (!sameNum(a[k], b[k])) return false; return true; }

enum Verdict { FREE, BROKEN, UNCLEAR };
// is there an interleaving in which one of the two getters returns something else?
static Verdict decide(Reporter& R, const Call& c0, Cls& t0, const Solo& s0, const Call& c1, Cls& t1, const Solo& s1, std::string& detail) {
  Ivs a0 = intervals(s0.t, false), w0 = intervals(s0.t, true), a1 = intervals(s1.t, false), w1 = intervals(s1.t, true);
  std::string r = R.z3.check("(declare-const p Int)\n(assert (or (and " + in("p", a0) + " " + in("p", w1) + ") (and " + in("p", w0) + " " + in("p", a1) + ")))\n", 20000);
  if (r == "unsat") return FREE;
  if (r != "sat") { detail = "solver: " + r; return UNCLEAR; }
  Ivs sh = meet(a0, w1), sh2 = meet(w0, a1); sh.insert(sh.end(), sh2.begin(), sh2.end());
  std::set<uint64_t> l0, l1; for (auto& e : s0.t.ev) if (e.kind == rt::LOCK) l0.insert(e.addr); for (auto& e : s1.t.ev) if (e.kind == rt::LOCK && l0.count(e.addr)) l1.insert(e.addr);
  struct N { int th, idx; const rt::Ev* e; std::string v; }; std::vector<N> ns[2]; bool atomics = false;
  for (int k = 0; k < 2; k++) { auto& tr = k ? s1.t : s0.t; for (size_t i = 0; i < tr.ev.size(); i++) { auto& e = tr.ev[i]; bool lk = e.kind == rt::LOCK || e.kind == rt::UNLOCK; if (lk ? l1.count(e.addr) > 0 : hit(e, sh)) { ns[k].push_back({k, (int)i, &e, (k ? "b" : "a") + std::to_string(i)}); atomics = atomics || e.kind == rt::ATOMIC; } } }
  if (ns[0].size() + ns[1].size() > 600) { detail = std::to_string(ns[0].size() + ns[1].size()) + " accesses to shared locations"; return UNCLEAR; }
  std::string q; std::vector<std::string> names;
  for (auto& v : ns) for (size_t i = 0; i < v.size(); i++) { q += "(declare-const " + v[i].v + " Int)\n"; names.push_back(v[i].v); if (i) q += "(assert (< " + v[i - 1].v + " " + v[i].v + "))\n"; }
  for (auto& x : ns[0]) for (auto& y : ns[1]) q += "(assert (not (= " + x.v + " " + y.v + ")))\n";
  // critical sections of one mutex do not overlap
  auto sections = [&](std::vector<N>& v, uint64_t m) { std::vector<std::pair<std::string, std::string>> o; std::string open; for (auto& x : v) { if (x.e->addr != m) continue; if (x.e->kind == rt::LOCK) open = x.v; else if (x.e->kind == rt::UNLOCK && open.size()) { o.push_back({open, x.v}); open.clear(); } } return o; };
  for (uint64_t m : l1) for (auto& x : sections(ns[0], m)) for (auto& y : sections(ns[1], m)) q += "(assert (or (< " + x.second + " " + y.first + ") (< " + y.second + " " + x.first + ")))\n";
  std::string bad = "(assert (or false";
  for (int k = 0; k < 2; k++) for (size_t i = 0; i < ns[k].size(); i++) {
    auto& rd = ns[k][i]; if (rd.e->kind != rt::READ && rd.e->kind != rt::ATOMIC) continue;
    // byte by byte: the last own write before the read
    std::vector<std::string> src(rd.e->size); std::vector<bool> known(rd.e->size, false);
    for (size_t j = i; j-- > 0;) { auto& e = *ns[k][j].e; if (e.kind != rt::WRITE && e.kind != rt::ATOMIC) continue; for (uint64_t p = std::max(e.addr, rd.e->addr); p < std::min(e.addr + e.size, rd.e->addr + rd.e->size); p++) if (!known[p - rd.e->addr]) { known[p - rd.e->addr] = true; src[p - rd.e->addr] = ns[k][j].v; } }
    for (auto& w : ns[1 - k]) if ((w.e->kind == rt::WRITE || w.e->kind == rt::ATOMIC) && overlap(*rd.e, *w.e)) {
      std::set<std::string> from; bool vals = rd.e->val.size() == rd.e->size && w.e->val.size() == w.e->size;
      for (uint64_t p = std::max(w.e->addr, rd.e->addr); p < std::min(w.e->addr + w.e->size, rd.e->addr + rd.e->size); p++) if (!vals || rd.e->val[p - rd.e->addr] != w.e->val[p - w.e->addr]) from.insert(src[p - rd.e->addr]);
      for (auto& f : from) bad += " (and (< " + w.v + " " + rd.v + ")" + (f.empty() ? "" : " (< " + f + " " + w.v + ")") + ")";
    }
  }
  q += bad + "))\n"; bool some = false;
  for (int round = 0; round < 6; round++) {
    std::map<std::string, std::string> m; r = R.z3.check(q, 20000, &names, &m);
    if (r == "unsat") { if (!some) return FREE; break; }
    if (r != "sat") { detail = "solver: " + r; return UNCLEAR; }
    some = true; std::vector<std::pair<double, std::pair<int, int>>> o; for (auto& v : ns) for (auto& x : v) o.push_back({parseSmtReal(m[x.v]), {x.th, x.idx}}); std::sort(o.begin(), o.end());
    std::vector<std::pair<int, int>> order; for (auto& x : o) order.push_back(x.second);
    Out r0, r1; if (both(c0, t0, c1, t1, order, r0, r1) && (!sameOut(r0, s0.out) || !sameOut(r1, s1.out))) {
      std::stringstream d; d.precision(17); auto diff = [&](const Call& c, const Out& got, const Out& want) { for (size_t k = 0; k < got.size() && k < want.size(); k++) if (!sameNum(got[k], want[k])) { d << c.name << " element " << k << " is " << got[k] << " instead of " << want[k] << "; "; return; } };
      diff(c0, r0, s0.out); diff(c1, r1, s1.out); d << "order"; int sw = 0; for (size_t k = 0; k < order.size() && sw < 12; k++) if (!k || order[k].first != order[k - 1].first) { d << " thread " << order[k].first + 1 << " access " << order[k].second << ","; sw++; }
      detail = d.str(); return BROKEN;
    }
    // another order: exclude this relative order of the first conflicting pair
    std::string blk = "(assert (or false"; for (size_t k = 1; k < o.size(); k++) if (o[k].second.first != o[k - 1].second.first) { auto nm = [&](std::pair<int, int> x) { return (x.first ? "b" : "a") + std::to_string(x.second); }; blk += " (> " + nm(o[k - 1].second) + " " + nm(o[k].second) + ")"; } q += blk + "))\n";
  }
  detail = atomics ? "an order that the recorded calls allow has no effect when executed (synchronised by atomics)" : "an order that changes a value read has no effect on the results when executed"; return UNCLEAR;
}
int main(int argc, char** argv) {
  // <label> <seed>
  Reporter R; R.config = argc > 1 ? argv[1] : "conc"; unsigned seed = argc > 2 ? (unsigned)atoi(argv[2]) : 1; sd = seed * 7919 + 3; for (int i = 0; i < 5; i++) rnd(sd);
  std::string what = "a getter running concurrently with another one does not return what it returns alone";
  auto gs = calls(); auto ss = setterCalls();
  auto* a = new Cls; auto* b = new Cls; auto* c = new Cls; fill(*a); fill(*b); fill(*c);
  { std::vector<Call> k; for (auto& g : gs) { Cls* t = new Cls(*c); std::string s; if (inChild([&]() { auto f = g.run(*t); return std::string(f ? "1" : "0"); }, s) && s == "1") k.push_back(g); else R.inconclusiveObl(g.name, "cannot be called"); } gs = k; }
  for (auto& g : gs) R.functions.push_back("thunder class: " + g.name);
  for (int warm = 0; warm < 2; warm++) {
    if (warm) for (auto& g : gs) g.run(*c)();
    std::string tag = warm ? "later calls: " : "first calls: ";
    std::map<std::string, Solo> t0, ta, tb; uint64_t mk[2][2] = {{0, 0}, {0, 0}}; bool stable = true;
    auto rec = [&](const Call& k, Cls& t, int slot) { Solo s = solo(k, t, slot), s2 = solo(k, t, slot); bool same = s.ok && s2.ok && s.t.ev.size() == s2.t.ev.size(); for (size_t i = 0; same && i < s.t.ev.size(); i++) same = s.t.ev[i].addr == s2.t.ev[i].addr && s.t.ev[i].kind == s2.t.ev[i].kind; s.ok = same; if (same) for (int i = 0; i < 2; i++) { if (!mk[slot][i]) mk[slot][i] = s.mark[i]; stable = stable && mk[slot][i] == s.mark[i]; } return s; };
    for (auto& g : gs) { t0[g.name] = rec(g, *a, 0); ta[g.name] = rec(g, *a, 1); tb[g.name] = rec(g, *b, 1); }
    for (auto& g : ss) { ta[g.name] = rec(g, *a, 1); tb[g.name] = rec(g, *b, 1); }
    if (!stable) { R.inconclusiveObl(tag + "recording", "addresses are not reproducible"); continue; }
    R.validated += 1;
    auto pair = [&](const Call& x, const Call& y, bool same) {
      std::string name = tag + x.name + " with " + y.name + (same ? ", same instance" : ", other instance"), d; R.obligations++;
      const Solo &s0 = t0[x.name], &s1 = (same ? ta : tb)[y.name]; if (!s0.ok || !s1.ok) { R.inconclusiveObl(name, "recording failed"); return; }
      R.elements += (long)(s0.t.ev.size() + s1.t.ev.size());
      Verdict v = decide(R, x, *a, s0, y, same ? *a : *b, s1, d);
      if (v == FREE) R.discharged++; else if (v == BROKEN) R.violation(name, what, nullptr, d); else R.inconclusiveObl(name, d);
    };
    for (size_t i = 0; i < gs.size() && R.violated < 12; i++) for (size_t j = i; j < gs.size() && R.violated < 12; j++) { pair(gs[i], gs[j], true); pair(gs[i], gs[j], false); }
    for (auto& g : gs) for (auto& s : ss) if (R.violated < 12) pair(g, s, false);
    // the machinery does find a disturbance where there is one: a getter against a setter of the same instance
    for (auto& g : gs) if (g.name == "get_obs_q") for (auto& s : ss) if (s.name == "set_q") { std::string d; if (t0[g.name].ok && ta[s.name].ok && decide(R, g, *a, t0[g.name], s, *a, ta[s.name], d) == BROKEN) R.witnesses++; else R.inconclusiveObl(tag + "control pair", "the known disturbance is not found: " + d); }
  }
  R.summary(); return 0;
}

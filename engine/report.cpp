#include "report.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>

namespace vf {
std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}
double rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return ((s >> 8) & 0xFFFF) / 32768.0 - 1.0; }
Reporter::Reporter() {
  if (const char* s = getenv("VERIF_SEED")) seed = (unsigned)atoi(s);
  if (const char* t = getenv("VF_TIMEOUT_MS")) timeoutMs = atoi(t);
}
static std::string bare(const std::string& n) { return n.substr(1, n.size() - 2); }
static void addVars(GenId g, std::set<std::string>& o);
static void addVarsP(const Poly& p, std::set<std::string>& o) { for (GenId g : gensOf(p)) addVars(g, o); }
static void addVars(GenId g, std::set<std::string>& o) {
  const Gen& G = gen(g);
  if (G.kind == Gen::VAR) { if (G.name.find("kang!") == std::string::npos) o.insert(bare(G.name)); }
  else if (G.kind == Gen::COS || G.kind == Gen::SIN) { for (auto& f : G.form.c) addVars(f.first, o); }
  else if (G.kind == Gen::SQRT) addVarsP(G.arg, o);
  else for (int a : G.opaqueArgs) for (auto& n : varsOf({opaqueArg(a)})) o.insert(n);
}
std::set<std::string> varsOf(const std::vector<Rat>& v) {
  std::set<std::string> o; std::set<GenId> gs;
  for (auto& r : v) { auto q = gensOf(r); gs.insert(q.begin(), q.end()); }
  for (GenId g : gs) addVars(g, o);
  return o;
}
void Reporter::note(const std::string& k, const std::string& v) { printf("{\"kind\":\"note\",\"config\":\"%s\",\"key\":\"%s\",\"value\":\"%s\"}\n", jesc(config).c_str(), jesc(k).c_str(), jesc(v).c_str()); fflush(stdout); }
void Reporter::inconclusiveObl(const std::string& name, const std::string& why) {
  inconclusive++;
  printf("{\"kind\":\"inconclusive\",\"config\":\"%s\",\"name\":\"%s\",\"why\":\"%s\"}\n", jesc(config).c_str(), jesc(name).c_str(), jesc(why).c_str()); fflush(stdout);
}
void Reporter::violation(const std::string& name, const std::string& what, const CE* ce, const std::string& detail) {
  violated++;
  printf("{\"kind\":\"violation\",\"config\":\"%s\",\"name\":\"%s\",\"what\":\"%s\",\"detail\":\"%s\"", jesc(config).c_str(), jesc(name).c_str(), jesc(what).c_str(), jesc(detail).c_str());
  if (ce) {
    printf(",\"element\":%d,\"real\":%.17g,\"expected\":%.17g,\"encoding\":%.17g,\"input\":{", ce->index, std::isfinite(ce->real) ? ce->real : 9e99, ce->spec, ce->impl);
    bool f = true; for (auto& e : ce->env) { printf("%s\"%s\":%.17g", f ? "" : ",", jesc(e.first).c_str(), e.second); f = false; }
    printf("}");
  }
  printf("}\n"); fflush(stdout);
}
bool Reporter::fact(const std::string& name, bool ok, const std::string& detail, const std::string& what) {
  obligations++;
  // ground query: keeps the deciding step uniform
  std::string r = z3.check(std::string("(assert (not (= ") + (ok ? "1.0" : "0.0") + " 1.0)))\n", 5000);
  if (r == "unsat") { discharged++; return true; }
  if (r == "sat") { violation(name, what, nullptr, detail); return false; }
  inconclusiveObl(name, "solver"); return false;
}

// assignment of all VARs consistent with rational points t for each trig atom
Env Reporter::randomEnv(const std::set<GenId>& gs, unsigned salt) {
  unsigned s = seed * 7919u + salt * 104729u + 17u; for (int i = 0; i < 5; i++) rnd(s);
  std::vector<Rat> v; for (GenId g : gs) v.push_back(Rat(genPoly(g)));
  Env e; for (auto& n : varsOf(v)) { double x = rnd(s); e[n] = std::round((x + (x >= 0 ? 0.25 : -0.25)) * 64) / 64.0; }
  return e;
}
static Q dy(double v) { return Q::fromDouble(v); }

bool Reporter::findCE(const Poly& num, const std::set<GenId>& gs0, CE& ce, unsigned salt, const char* minAbs) {
  unsigned s = seed * 31337u + salt * 2654435761u + 11u; for (int i = 0; i < 5; i++) rnd(s);
  std::set<GenId> gs = gs0;
  std::vector<GenId> cosg, plain; bool opaqueSeen = false;
  for (GenId g : gs0) {
    const Gen& G = gen(g);
    if (G.kind == Gen::SIN) { gs.insert(G.mate); }
  }
  std::set<GenId> inForm, special;
  for (GenId g : gs) {
    const Gen& G = gen(g);
    if (G.kind == Gen::COS) { cosg.push_back(g); for (auto& f : G.form.c) inForm.insert(f.first); }
    if (G.kind == Gen::OPAQUE) opaqueSeen = true;
  }
  for (GenId g : gs) if (gen(g).kind == Gen::VAR && !inForm.count(g)) plain.push_back(g);
  std::vector<GenId> sq; for (GenId g : gs) if (gen(g).kind == Gen::SQRT) { sq.push_back(g); for (GenId a : gensOf(gen(g).arg)) special.insert(a); }
  Env base = randomEnv(gs, salt);
  // atoms: angle values from the VARs when every form is a single variable or solvable by a pivot
  std::map<GenId, double> t;    // cos gen -> t
  std::set<GenId> usedPivot;
  for (GenId g : cosg) t[g] = std::round((rnd(s) * 1.5) * 16 + (rnd(s) > 0 ? 0.5 : -0.5)) / 16.0;
  // solve forms: Gaussian elimination with doubles
  {
    struct Row { std::map<GenId, double> c; double k; };
    std::vector<Row> rows;
    for (GenId g : cosg) { Row r; for (auto& f : gen(g).form.c) { if (gen(f.first).name.find("kang!") != std::string::npos) continue; r.c[f.first] = f.second.toDouble(); } r.k = 2 * std::atan(t[g]); bool kang = r.c.size() != gen(g).form.c.size(); if (kang) { t.erase(g); continue; } rows.push_back(r); }
    std::vector<GenId> piv(rows.size(), 0); std::vector<char> hasPiv(rows.size(), 0);
    for (size_t i = 0; i < rows.size(); i++) {
      for (size_t j = 0; j < i; j++) if (hasPiv[j]) { auto it = rows[i].c.find(piv[j]); if (it == rows[i].c.end()) continue; double m = it->second / rows[j].c[piv[j]]; for (auto& c : rows[j].c) { rows[i].c[c.first] -= m * c.second; if (std::fabs(rows[i].c[c.first]) < 1e-12) rows[i].c.erase(c.first); } rows[i].k -= m * rows[j].k; }
      if (rows[i].c.empty()) continue;
      piv[i] = rows[i].c.rbegin()->first; for (auto& c : rows[i].c) if (gen(c.first).name.find("|q[") == 0) piv[i] = c.first;
      hasPiv[i] = 1;
    }
    for (size_t i = rows.size(); i-- > 0;) if (hasPiv[i]) {
      double v = rows[i].k; for (auto& c : rows[i].c) if (c.first != piv[i]) v -= c.second * base[bare(gen(c.first).name)];
      base[bare(gen(piv[i]).name)] = v / rows[i].c[piv[i]];
    }
  }
  std::string body = declare(gs);
  // choose what stays free: one plain variable, or one atom
  std::vector<GenId> cand; for (GenId g : plain) cand.push_back(g); for (GenId g : cosg) if (t.count(g)) cand.push_back(g);
  if (cand.empty() && !num.isConst()) return false;
  GenId freeG = cand.empty() ? 0 : cand[(unsigned)((rnd(s) + 1) * 5000) % cand.size()];
  std::map<GenId, Poly> sub;
  if (!opaqueSeen) {
    for (GenId g : gs) {
      const Gen& G = gen(g);
      if (!cand.empty() && g == freeG) continue;
      if (G.kind == Gen::VAR) { if (G.name.find("kang!") == std::string::npos) sub[g] = Poly(dy(base[bare(G.name)])); }
      else if (G.kind == Gen::COS && t.count(g)) { Q tt = dy(t[g]); sub[g] = Poly((Q(1) - tt * tt) / (Q(1) + tt * tt)); }
      else if (G.kind == Gen::SIN && t.count(G.mate) && !(!cand.empty() && G.mate == freeG)) { Q tt = dy(t[G.mate]); sub[g] = Poly((Q(2) * tt) / (Q(1) + tt * tt)); }
    }
  }
  Poly sl = subst(num, sub);
  std::set<GenId> left = gensOf(sl); if (!cand.empty()) left.insert(freeG);
  std::string q = declare(left);
  for (GenId g : left) if (gen(g).kind == Gen::VAR) q += "(assert (and (<= (- 2.0) " + gen(g).name + ") (<= " + gen(g).name + " 2.0)))\n";
  for (GenId g : left) if (sub.count(g)) { if (sub[g].isConst()) q += "(assert (= " + gen(g).name + " " + sub[g].constVal().smt() + "))\n"; }
  q += "(assert (let ((d " + sl.smt() + ")) (or (> d " + minAbs + ") (< d (- " + minAbs + ")))))\n";
  std::vector<std::string> want; if (!cand.empty()) { want.push_back(gen(freeG).name); if (gen(freeG).kind == Gen::COS) want.push_back(gen(gen(freeG).mate).name); }
  std::map<std::string, std::string> model;
  std::string r = z3.check(q, 5000, &want, &model);
  if (r != "sat") return false;
  ce.env = base;
  if (!cand.empty()) {
    if (gen(freeG).kind == Gen::VAR) { double v = parseSmtReal(model[gen(freeG).name]); if (std::isnan(v)) return false; ce.env[bare(gen(freeG).name)] = v; }
    else {
      double c = parseSmtReal(model[gen(freeG).name]), sn = parseSmtReal(model[gen(gen(freeG).mate).name]);
      if (std::isnan(c) || std::isnan(sn)) { /* irrational model: keep the base angle */ }
      else {
        double want_a = std::atan2(sn, c), have = 0; GenId pv = gen(freeG).form.c.begin()->first;
        for (auto& f : gen(freeG).form.c) { have += f.second.toDouble() * base[bare(gen(f.first).name)]; if (gen(f.first).name.find("|q[") == 0) pv = f.first; }
        ce.env[bare(gen(pv).name)] += (want_a - have) / gen(freeG).form.c.at(pv).toDouble();
      }
    }
  }
  return true;
}

static Poly crossNum(const Rat& a, const Rat& b) { return (a - b).num; }

bool Reporter::equal(const std::string& name, const std::vector<Rat>& impl, const std::vector<Rat>& spec, const Replay& replay, const std::string& what) {
  obligations++; elements += (long)impl.size();
  if (impl.size() != spec.size()) { violation(name, what, nullptr, "result has " + std::to_string(impl.size()) + " elements, expected " + std::to_string(spec.size())); return false; }
  // query per batch, bounded text size
  std::vector<int> bad; bool unk = false;
  size_t i = 0;
  while (i < impl.size()) {
    std::set<GenId> gs; std::set<int> ds; std::string ors; size_t j = i;
    for (; j < impl.size() && ors.size() < 400000; j++) {
      Rat a = impl[j], b = spec[j];
      if (a.den != b.den) { Rat d = a - b; a = Rat(d.num); b = Rat(0); for (auto& x : d.den) ds.insert(x.first); }
      else for (auto& x : a.den) ds.insert(x.first);
      auto ga = gensOf(a.num), gb = gensOf(b.num); gs.insert(ga.begin(), ga.end()); gs.insert(gb.begin(), gb.end());
      ors += " (not (= " + a.num.smt() + " " + b.num.smt() + "))";
    }
    std::string body = declare(gs, ds) + "(assert (or false" + ors + "))\n";
    bool differ = false; for (size_t k = i; k < j; k++) if (!crossNum(impl[k], spec[k]).isZero()) { differ = true; bad.push_back((int)k); }
    if (!differ) {
      std::string r = z3.check(body, timeoutMs);
      if (r == "sat") { inconclusiveObl(name, "solver reports a difference the encoding does not show"); return false; }
      if (r != "unsat") unk = true;
    }
    i = j;
  }
  if (bad.empty()) { if (unk) { inconclusiveObl(name, "solver gave no answer"); return false; } discharged++; return true; }
  // differing normal forms: ask the solver for a concrete point and replay it
  std::string why = "solver found no point";
  for (size_t b = 0; b < bad.size() && b < 6; b++) {
    int k = bad[b]; Poly d = crossNum(impl[k], spec[k]);
    std::set<GenId> gs = gensOf(impl[k]); { auto q = gensOf(spec[k]); gs.insert(q.begin(), q.end()); }
    std::set<GenId> all; for (auto& r : impl) { auto q = gensOf(r); all.insert(q.begin(), q.end()); }
    for (unsigned salt = 1; salt <= 24; salt++) {
      CE ce;
      if (!findCE(d, gs, ce, salt, salt <= 16 ? "0.0009765625" : "0.0000019073486328125")) continue;
      Env full = randomEnv(all, salt); for (auto& e : full) if (!ce.env.count(e.first)) ce.env[e.first] = e.second;
      ce.index = k;
      try { ce.spec = evalR(spec[k], ce.env); ce.impl = evalR(impl[k], ce.env); } catch (std::exception& ex) { why = ex.what(); continue; }
      std::vector<double> real;
      try { real = replay(ce.env); } catch (std::exception& ex) { violation(name, what, &ce, std::string("real code failed at this input: ") + ex.what()); return false; }
      if ((int)real.size() <= k) { violation(name, what, nullptr, "real code returned a different shape"); return false; }
      ce.real = real[k];
      double sc = 1 + std::fabs(ce.spec);
      if (std::isnan(ce.real) || std::fabs(ce.real - ce.spec) > tol * sc) { violation(name, what, &ce, "element " + std::to_string(k) + ": real code differs from the specification"); return false; }
      why = "counterexample did not reproduce on the real code";
    }
  }
  // normal forms differ but no point was found: the solver gets the full question
  bool all = true;
  for (int k : bad) {
    Rat d = impl[k] - spec[k]; if (d.num.size() > 4000) { all = false; break; }
    std::set<int> ds; for (auto& x : d.den) ds.insert(x.first);
    std::string r = z3.check(declare(gensOf(d), ds) + "(assert (not (= " + d.num.smt() + " 0.0)))\n", timeoutMs);
    if (r != "unsat") { all = false; break; }
  }
  if (all && !unk) { discharged++; return true; }
  inconclusiveObl(name, why); return false;
}

bool Reporter::close(const std::string& name, const std::vector<Rat>& impl, const std::vector<Rat>& spec, double box, double eps, const Replay& replay, const std::string& what) {
  obligations++; elements += (long)impl.size();
  if (impl.size() != spec.size()) { violation(name, what, nullptr, "result has " + std::to_string(impl.size()) + " elements, expected " + std::to_string(spec.size())); return false; }
  std::vector<int> bad;
  for (size_t k = 0; k < impl.size(); k++) {
    Rat d = impl[k] - spec[k];
    if (d.num.isZero()) { std::string r = z3.check("(assert (not (= 0.0 0.0)))\n", 5000); if (r != "unsat") { inconclusiveObl(name, "solver"); return false; } continue; }
    if (!d.den.empty()) throw Unsupported("quotient in bounded comparison");
    // each monomial is an independent quantity bounded by the product of its factors' bounds
    std::string q, sum = "(+ 0.0"; int id = 0;
    for (auto& x : d.num.t) {
      double b = 1; for (auto& g : mono(x.m)) { auto kd = gen(g.first).kind; if (kd == Gen::VAR) for (int e = 0; e < g.second; e++) b *= box; else if (kd != Gen::COS && kd != Gen::SIN) throw Unsupported("bounded comparison"); }
      std::string v = "m" + std::to_string(id++), B = Q::fromDouble(b).smt();
      q += "(declare-const " + v + " Real)\n(assert (and (<= (- " + B + ") " + v + ") (<= " + v + " " + B + ")))\n";
      if (x.m == 0) q += "(assert (= " + v + " 1.0))\n";
      sum += " (* " + x.c.smt() + " " + v + ")";
    }
    std::string E = Q::fromDouble(eps).smt();
    q += "(assert (let ((d " + sum + "))) (or (> d " + E + ") (< d (- " + E + ")))))\n";
    std::string r = z3.check(q, timeoutMs);
    if (r == "unsat") continue;
    if (r == "unknown") { inconclusiveObl(name, "solver gave no answer"); return false; }
    bad.push_back((int)k);
  }
  if (bad.empty()) { discharged++; return true; }
  for (size_t b = 0; b < bad.size() && b < 6; b++) {
    int k = bad[b]; Poly d = (impl[k] - spec[k]).num; std::set<GenId> gs = gensOf(d);
    std::vector<Rat> both = impl; both.push_back(spec[k]); auto vs = varsOf(both);
    for (unsigned salt = 1; salt <= 24; salt++) {
      CE ce; if (!findCE(d, gs, ce, salt, Q::fromDouble(eps * 4).smt().c_str())) continue;
      unsigned s = salt; for (auto& n : vs) if (!ce.env.count(n)) ce.env[n] = rnd(s);
      ce.index = k; ce.spec = evalR(spec[k], ce.env); ce.impl = evalR(impl[k], ce.env);
      auto real = replay(ce.env); if ((int)real.size() <= k) { violation(name, what, nullptr, "shape"); return false; }
      ce.real = real[k];
      if (std::isnan(ce.real) || std::fabs(ce.real - ce.spec) > eps) { violation(name, what, &ce, "element " + std::to_string(k) + ": real code differs from the specification"); return false; }
    }
  }
  inconclusiveObl(name, "bounded comparison undecided: no reproducing point"); return false;
}

bool Reporter::implies(const std::string& name, const std::vector<Rat>& mentioned, const std::string& assumptions, const std::string& goal,
                       const std::function<bool(const Env&, std::string&)>& replay, const std::string& what) {
  obligations++;
  std::set<GenId> gs; std::set<int> ds;
  for (auto& r : mentioned) { auto q = gensOf(r); gs.insert(q.begin(), q.end()); for (auto& d : r.den) ds.insert(d.first); }
  std::string decl = declare(gs, ds);
  // vacuity: the assumptions must be satisfiable
  std::string w = z3.check(decl + assumptions, timeoutMs);
  if (w == "unsat") { inconclusiveObl(name, "assumptions are contradictory"); return false; }
  if (w == "sat") witnesses++;
  std::vector<std::string> want; for (GenId g : gs) if (gen(g).kind == Gen::VAR) want.push_back(gen(g).name);
  std::map<std::string, std::string> model;
  std::string r = z3.check(decl + assumptions + "(assert (not " + goal + "))\n", timeoutMs, &want, &model);
  if (r == "unsat") { discharged++; return true; }
  if (r == "sat") {
    CE ce; for (auto& m : model) { double v = parseSmtReal(m.second); ce.env[bare(m.first)] = std::isnan(v) ? 0 : v; }
    std::string d;
    if (replay(ce.env, d)) { violation(name, what, &ce, d); return false; }
    inconclusiveObl(name, "counterexample did not reproduce: " + d); return false;
  }
  inconclusiveObl(name, "solver gave no answer"); return false;
}

bool Reporter::validate(const std::string& name, const std::vector<Rat>& impl, const std::set<std::string>& vars, const Replay& replay, int points) {
  for (int p = 0; p < points; p++) {
    unsigned s = seed + 77u * p + 3; Env e; for (auto& v : vars) e[v] = rnd(s) * 1.5;
    for (auto& v : varsOf(impl)) if (!e.count(v)) e[v] = rnd(s) * 1.5;
    auto real = replay(e);
    if (real.size() != impl.size()) { inconclusiveObl("encoding of " + name, "shape"); return false; }
    for (size_t k = 0; k < impl.size(); k++) {
      double a = evalR(impl[k], e), sc = 1 + absEvalR(impl[k], e);
      if (!(std::fabs(a - real[k]) <= 1e-9 * sc)) {
        char b[200]; snprintf(b, sizeof b, "encoding gives %.12g, real code gives %.12g (element %zu)", a, real[k], k);
        inconclusiveObl("encoding of " + name, b); return false;
      }
    }
    validated++;
  }
  return true;
}
bool Reporter::witness(const std::string& name, const std::vector<Rat>& impl) {
  // the same query with one element shifted by 1 must be satisfiable
  for (auto& r : impl) {
    if (r.num.size() > 3000) continue;
    std::set<GenId> gs = gensOf(r); std::set<int> ds; for (auto& d : r.den) ds.insert(d.first);
    std::string q = declare(gs, ds) + "(assert (not (= " + (r.num + Poly(1)).smt() + " " + r.num.smt() + ")))\n";
    std::string a = z3.check(q, timeoutMs);
    if (a == "sat") { witnesses++; return true; }
    if (a == "unsat") { inconclusiveObl(name, "vacuous: side conditions contradictory"); return false; }
    // unknown: try with fixed atoms
  }
  return true;
}
void Reporter::summary() {
  std::string f; for (auto& x : functions) f += (f.empty() ? "\"" : ",\"") + jesc(x) + "\"";
  printf("{\"kind\":\"summary\",\"config\":\"%s\",\"obligations\":%ld,\"discharged\":%ld,\"violated\":%ld,\"inconclusive\":%ld,\"elements\":%ld,\"validated\":%ld,\"witnesses\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"query_bytes\":%ld,\"functions\":[%s]}\n",
         jesc(config).c_str(), obligations, discharged, violated, inconclusive, elements, validated, witnesses, z3.st.queries, z3.st.unsat, z3.st.sat, z3.st.unknown, z3.st.seconds, z3.st.bytes, f.c_str());
  fflush(stdout);
}
}  // namespace vf

// the driver of vfstr.hpp: explores every path (symbolic build) or runs one assignment (native build)
#pragma once
#include "vfstr.hpp"
namespace vs {
inline std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } return o.empty() ? "-" : o; }
inline std::string unhex(const std::string& s) { std::string o; if (s != "-") for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)std::stoi(s.substr(i, 2), nullptr, 16); return o; }
struct Quiet { std::streambuf *a, *b; std::stringstream s; Quiet() { a = std::cout.rdbuf(s.rdbuf()); b = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
#ifdef VF_NATIVE_STR
struct Out { std::string name, what; bool bad; };
static std::vector<Out> outs;
void eq(const std::string& name, const S& got, const S& want, const std::string& what) { outs.push_back({name, what, got != want}); }
void ok(const std::string& name, bool b, const std::string&, const std::string& what) { outs.push_back({name, what, !b}); }
// scenario, file of "name hexvalue" lines: prints the names of the obligations that fail
int run(int argc, char** argv, const std::map<std::string, Scenario>& all, const std::vector<std::string>&) {
  std::ifstream f(argv[2]); std::string n, h; while (f >> n >> h) vals()[unhex(n)] = unhex(h);
  int status = 0;
  { Quiet q; try { all.at(argv[1])(); } catch (const Stop& s) { status = 3; } catch (const std::exception& e) { outs.push_back({"the code ends by an exception", e.what(), true}); } }
  for (auto& o : outs) if (o.bad) printf("BAD %s\n", hex(o.name).c_str());
  printf("END %d\n", status); return 0;
}
#else
inline std::map<std::string, std::string> assignment(std::map<std::string, std::string>& model) {
  World& w = W(); std::map<std::string, std::string> o; std::map<std::string, std::map<int, char>> strs;
  for (auto& x : w.v) {
    int val = 0; auto it = model.find("|" + x.name + "|"); if (it == model.end()) it = model.find(x.name);
    if (it != model.end() && it->second.rfind("#x", 0) == 0) val = std::stoi(it->second.substr(2), nullptr, 16); else while (val < 255 && !x.dom[val]) val++;
    if (x.name.rfind("num:", 0) == 0) o[x.name.substr(4)] = std::to_string(val);
    else { size_t k = x.name.rfind(':'); strs[x.name.substr(0, k)][std::stoi(x.name.substr(k + 1))] = (char)val; }
  }
  for (auto& s : strs) { std::string t; int L = s.second.rbegin()->first + 1; auto l = o.find(s.first.substr(4) + ".length"); if (l != o.end()) L = std::min(L, std::stoi(l->second)); for (int i = 0; i < L; i++) t += s.second[i]; o[s.first] = t; }
  return o;
}
int run(int argc, char** argv, const std::map<std::string, Scenario>& all, const std::vector<std::string>& functions) {
  vf::Reporter R; R.config = getenv("VF_LABEL") ? getenv("VF_LABEL") : argv[1]; World& w = W(); w.R = &R; R.functions = functions;
  const char* nat = getenv("VF_NATIVE"); std::string tmp = nat ? std::string(nat) + "." + std::to_string(getpid()) : "/tmp/none";
  std::set<std::string> bad; long replays = 0, maxPaths = argc > 2 ? atol(argv[2]) : 20000; bool witnessed = false, gave_up = false;
  auto native = [&](const std::map<std::string, std::string>& a, std::set<std::string>& fails) {
    if (!nat) return false; { std::ofstream f(tmp); for (auto& x : a) f << hex(x.first) << " " << hex(x.second) << "\n"; }
    FILE* p = popen(("timeout 60 " + std::string(nat) + " " + argv[1] + " " + tmp + " 2>/dev/null").c_str(), "r"); if (!p) return false; char b[4096]; bool end = false;
    while (fgets(b, sizeof b, p)) { std::string l(b); while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.rfind("BAD ", 0) == 0) fails.insert(unhex(l.substr(4))); if (l.rfind("END", 0) == 0) end = true; }
    int rc = pclose(p); unlink(tmp.c_str()); if (!end) fails.insert("the code ends by an exception"); (void)rc; return true;
  };
  for (;;) {
    w.v.clear(); w.byName.clear(); w.pc.clear(); w.pos = 0; obls().clear(); tokens().clear(); bool skip = false; std::string thrown;
    { Quiet q; try { all.at(argv[1])(); } catch (const Stop&) { skip = true; } catch (const Unsupported& u) { skip = true; R.inconclusiveObl(argv[1], u.why); gave_up = true; }
      catch (const std::exception& e) { thrown = e.what(); } }
    if (!skip) {
      w.paths++;
      if (!thrown.empty()) obls().push_back({"the code ends by an exception", "the code fails on a valid input", "true", thrown});
      std::string D = w.decls(); std::vector<std::string> want; for (auto& x : w.v) want.push_back("|" + x.name + "|");
      // vacuity: the path is possible
      std::map<std::string, std::string> model; std::string any = "(assert (or false";
      for (auto& o : obls()) any += " " + o.cond; any += "))\n";
      R.obligations += obls().size(); R.elements += obls().size();
      std::string r = R.z3.check(D + any, 30000);
      if (r == "unsat") {
        R.discharged += obls().size();
        if (!witnessed || w.paths % 97 == 0) {
          std::string p = R.z3.check(D, 20000, &want, &model);
          if (p == "sat") { R.witnesses++; witnessed = true; std::set<std::string> fails; auto a = assignment(model); if (native(a, fails)) { if (fails.empty()) R.validated++; else R.inconclusiveObl(argv[1], "native run disagrees: " + *fails.begin()); } }
          else R.inconclusiveObl(argv[1], "a path without a possible input");
        }
      } else if (r == "sat") {
        for (auto& o : obls()) {
          model.clear(); std::string q = R.z3.check(D + "(assert " + o.cond + ")\n", 30000, &want, &model);
          if (q == "unsat") { R.discharged++; continue; }
          if (q != "sat") { R.inconclusiveObl(o.name, "solver: " + q); continue; }
          if (bad.count(o.name)) { R.violated++; continue; }
          std::set<std::string> fails; auto a = assignment(model); std::string in; for (auto& x : a) in += x.first + "=" + x.second + " ";
          if (replays++ > 60) { R.inconclusiveObl(o.name, "too many replays"); continue; }
          if (native(a, fails) && fails.count(o.name)) { bad.insert(o.name); R.violation(o.name, o.what, nullptr, "input: " + in + "; " + o.detail); }
          else R.inconclusiveObl(o.name, "the counterexample is not reproduced by the native build; input: " + in);
        }
      } else R.inconclusiveObl(argv[1], "solver: " + r);
    }
    // next path
    while (!w.dec.empty() && w.dec.back() == 0) w.dec.pop_back();
    if (w.dec.empty() || bad.size() > 8) break;
    w.dec.back() = 0;
    if (w.paths > maxPaths) { R.inconclusiveObl(argv[1], "more paths than the limit"); break; }
    if (gave_up && w.paths == 0) break;
  }
  R.note("paths", std::to_string(w.paths)); R.summary(); return 0;
}
#endif
}  // namespace vs

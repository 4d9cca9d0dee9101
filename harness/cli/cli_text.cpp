// P23: the texts written for a robot are named after it, for every name.
#include "text_env.hpp"
#include VF_UTILS
#undef string
#undef ifstream
#undef ofstream
#undef stringstream
#undef ostringstream
#undef getline
using vs::S; using vs::fs; using vs::eq; using vs::ok; using vs::assume;
static const char* W = "a generated file is not named after the robot";
static const std::string ident = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_", first = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";
static const std::string TM = VF_TEMPLATE;
static S name(int len, const std::string& alphabet) {
  S a = vs::str("first", 1, 1, first), b; if (len > 1) b = vs::str("rest", len - 1, len - 1, alphabet); return a + b;
}
static S subst(const S& text, const std::string& from, const S& to) {      // the reference: plain left-to-right replacement
  std::string t = vs::concrete(text); S o; size_t p = 0, k; while ((k = t.find(from, p)) != std::string::npos) { o += vs::fromText(t.substr(p, k - p)); o += to; p = k + from.size(); } o += vs::fromText(t.substr(p)); return o;
}
static thunder_ns::Robot robot(const S& n) {
  thunder_ns::Robot r; r.robotName = n; r.symb["par_DYN"] = {1, 0, 1}; r.symb["par_Dl"] = {1, 1}; r.symb["par_K"] = {0, 0};
  auto add = [&](const char* f, std::vector<S> a, int x, int y) { thunder_ns::fun_obj o; o.name = S(f); o.description = S("about ") + f; for (auto& q : a) o.args.push_back(q); o.out_size = {x, y}; r.funs.push_back(o); };
  add("M", {S("q"), S("par_DYN")}, 3, 3); add("dl", {S("dq"), S("par_Dl")}, 3, 1); add("one", {}, 1, 1); return r;
}
struct Texts { S h, cpp, cmake; bool okc, okm; };
static Texts make(const S& n, bool py) {
  fs() = vs::Fs(); fs().cwd = S("/w"); fs().write("/g/a.h", vs::fromText(vs::readFile(TM + "/thunder_robot.h"))); fs().write("/g/a.cpp", vs::fromText(vs::readFile(TM + "/thunder_robot.cpp"))); fs().write("/g/CMakeLists.txt", vs::fromText(vs::readFile(TM + "/CMakeLists.txt")));
  Texts t; thunder_ns::Robot r = robot(n);
  t.okm = !py || thunder_ns::update_cmake("robot", n, "/g/CMakeLists.txt"); t.okc = thunder_ns::change_to_robot("robot", n, r, "/g/a.h", "/g/a.cpp", py);
  t.h = *fs().find("/g/a.h"); t.cpp = *fs().find("/g/a.cpp"); t.cmake = *fs().find("/g/CMakeLists.txt"); return t;
}
static bool contains(const S& t, const S& w) { for (size_t i = 0; i + w.size() <= t.size(); i++) if (vs::same(t.substr(i, w.size()), w)) return true; return false; }
static void scenario(int len, const std::string& alphabet) {
  bool py = vs::flag("python"); S n = name(len, alphabet);
  static const std::string ref = "ZqxJv"; Texts R = make(S(ref), py), T = make(n, py);
  ok("the texts are written", T.okc && T.okm, "refused", W);
  eq("class header", T.h, subst(R.h, ref, n), W); eq("class source", T.cpp, subst(R.cpp, ref, n), W);
  eq("build file of the Python module", T.cmake, py ? subst(vs::fromText(vs::readFile(TM + "/CMakeLists.txt")), "robot", n) : vs::fromText(vs::readFile(TM + "/CMakeLists.txt")), W);
  for (const char* w : {"class thunder_ZqxJv", "get_M()", "get_dl()", "get_one()"}) ok(std::string("header has ") + w, contains(R.h, w), "", W);
  for (const char* w : {"#include \"thunder_ZqxJv.h\"", "#include \"ZqxJv_gen.h\"", "thunder_ZqxJv::get_M()", "ZqxJv_M_fun(", "ZqxJv_dl_fun(", "ZqxJv_one_fun("}) ok(std::string("source has ") + w, contains(R.cpp, w) || contains(R.h, w), "", W);
  for (const char* w : {"thunder_robot", "robot_gen", "/*#-FUNCTIONS", "/*#-n_joints", "/*#-GENERATED"}) ok(std::string("nothing is left of ") + w, !contains(R.h, w) && !contains(R.cpp, w), "", W);
  ok("Python module", contains(R.cpp, "PYBIND11_MODULE(thunder_ZqxJv_py") == py, "", W);
  ok("Python class", contains(R.cpp, "py::class_<thunder_ZqxJv>(m, \"thunder_ZqxJv\")") == py, "", W);
}
static void replaceScenario(int n) {      // replace_all on short arbitrary texts
  S t = vs::str("text", 0, n, "abc"), f = vs::str("from", 1, 2, "abc"), w = vs::str("to", 0, 3, "abc"), g = t;
  thunder_ns::replace_all(g, f, w);
  S o; size_t i = 0; while (i < t.size()) { if (i + f.size() <= t.size() && vs::same(t.substr(i, f.size()), f)) { o += w; i += f.size(); } else { o += t.substr(i, 1); i++; } }
  eq("replace_all", g, o, W);
}
int main(int argc, char** argv) {
  std::map<std::string, vs::Scenario> m; for (int k = 1; k <= 8; k++) m["replace" + std::to_string(k)] = [k] { replaceScenario(k); }; std::string noB; for (char c : ident) if (c != 'b' && c != 'B') noB += c;
  for (int k = 1; k <= 4; k++) m["text" + std::to_string(k)] = [k] { scenario(k, ident); };
  for (int k = 5; k <= 24; k++) m["text" + std::to_string(k)] = [k, noB] { scenario(k, noB); };       // names that do not contain "robot"
  return vs::run(argc, argv, m, {"utils.cpp: change_to_robot", "utils.cpp: update_cmake", "utils.cpp: add_bindings_template", "utils.cpp: replace_all", "utils.cpp: get_ret_type"});
}

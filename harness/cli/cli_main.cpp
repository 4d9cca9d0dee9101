// P23: names, paths and copies of the command line tool, for every configuration path and optional name.
#include "main_env.hpp"
#include VF_MAIN
#undef string
#undef filesystem
#undef getenv
#undef ArgumentParser
#undef Robot
#undef robot_from_file
#undef change_to_robot
#undef update_cmake
#undef genInertial_files
#undef main
using vs::S; using vs::fs; using vs::eq; using vs::ok; using vs::flag; using vs::assume;
static const std::string NAME = "names, files or copies of the generator are not coherent";
static std::string printable(const std::string& without) { std::string a; for (int c = 32; c < 127; c++) if (without.find((char)c) == std::string::npos) a += (char)c; return a; }
struct Lim { int path, name, cwd; bool flags; };
static void scenario(Lim L) {
  fs() = vs::Fs();
  // an arbitrary path that ends in ".yaml"
  S pre = vs::str("path", 1, L.path, printable("")), conf = pre + ".yaml";
  assume(pre[0] != '-'); assume(pre[pre.size() - 1] != '/');
  bool named = flag("with_name"), longOpt = flag("long_options"), before = flag("options_first"), py = true, cas = true, cpy = true, stale = false;
  if (L.flags) { py = flag("python"); cas = flag("casadi"); cpy = flag("copy"); stale = flag("earlier_run"); }
  S name; if (named) { name = vs::str("name", 1, L.name, printable("/")); assume(name[0] != '-'); assume(name != "."); assume(name != ".."); }
  bool inBuild = flag("in_build"); S w = vs::str("cwd", 1, L.cwd, printable("/")); assume(w != "."); assume(w != "..");
  fs().cwd = inBuild ? S("/w/") + w + "/src/thunder/build" : S("/w/") + w;
  // the name derived independently: what stands between the last '/' and ".yaml"
  S N = name; if (!named) { size_t k = pre.size(); while (k > 0 && pre[k - 1] != '/') k--; N = pre.substr(k); assume(N != "."); assume(N != ".."); }
  S D = fs().cwd + "/" + N + "_generatedFiles", tm = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
  fs().strictDir = D;
  for (auto f : {"thunder_robot.h", "thunder_robot.cpp", "CMakeLists.txt"}) fs().write(tm + f, S("template ") + f);
  fs().conf = conf;
  std::vector<S> six{N + "_gen.h", N + "_gen.cpp", S("thunder_") + N + ".h", S("thunder_") + N + ".cpp", N + "_conf.yaml", N + "_par_REG.yaml"};
  S root = inBuild ? S("/w/") + w : S("/home/thunder_dev/thunder_dynamics");
  auto place = [&](const std::string& proj, int i) { return root + "/src/" + proj + (i == 0 || i == 2 ? "/library/" : i < 4 ? "/src/" : "/robots/") + six[i]; };
  if (stale) { fs().dirs.push_back(D); for (auto& f : six) fs().files.push_back({D + "/" + f, S("stale")}); fs().files.push_back({D + "/CMakeLists.txt", S("stale")}); for (auto p : {"thunder_robot", "thunder_robot_chrono"}) for (int i = 0; i < 6; i++) fs().files.push_back({place(p, i), S("stale")}); }
  // the command line
  std::vector<std::string> a{"thunder", "gen"}, o; if (named) { o.push_back(longOpt ? "--name" : "-n"); o.push_back(vs::arg(name)); } if (py) o.push_back(longOpt ? "--python" : "-p"); if (cas) o.push_back(longOpt ? "--casadifunc" : "-f"); if (cpy) o.push_back(longOpt ? "--copy" : "-c");
  if (before) a.insert(a.end(), o.begin(), o.end()); a.push_back(vs::arg(conf)); if (!before) a.insert(a.end(), o.begin(), o.end());
  std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  size_t had = fs().files.size();
  thunder_main((int)a.size(), v.data());
  S st = S("robot(configuration,") + N + ")";
  auto want = [&](const S& f, const S& c, const std::string& n) { S* g = fs().find(D + "/" + f); ok(n + " is written into the folder named after the robot", g, "missing " + vs::arg(f), NAME); if (g) eq("content of " + n, *g, c, NAME); };
  want(six[0], "library header(" + st + "," + N + "_gen)", "library header"); want(six[1], "library(" + st + "," + N + "_gen)", "library");
  want(six[2], "class(robot," + N + "," + st + ",0,template thunder_robot.h)", "class header"); want(six[3], "class(robot," + N + "," + st + (py ? ",1" : ",0") + ",template thunder_robot.cpp)", "class source");
  want(six[4], "conf(" + st + ")", "configuration"); want(six[5], "par_REG(" + st + ")", "parameter file");
  if (py) want("CMakeLists.txt", "cmake(robot," + N + ",template CMakeLists.txt)", "build file of the Python module");
  else if (!stale) ok("no build file of the Python module without request", !fs().find(D + "/CMakeLists.txt"), "", NAME);
  if (cas) ok("saved functions", fs().find(D + "/M.casadi"), "", NAME);
  // copies
  for (std::string p : {"thunder_robot", "thunder_robot_chrono"}) for (int i = 0; i < 6; i++) {
    S* c = fs().find(place(p, i)); static const char* n[] = {"library header", "library", "class header", "class source", "configuration", "parameter file"}; S* g = fs().find(D + "/" + six[i]);
    if (cpy) { ok("copy of " + std::string(n[i]) + " in " + p, c, "", NAME); if (c && g) eq("content of the copy of " + std::string(n[i]) + " in " + p, *c, *g, NAME); }
    else if (c) eq("without -c nothing is copied to " + p, *c, "stale", NAME);
  }
  for (const char* f : {"thunder_robot.h", "thunder_robot.cpp", "CMakeLists.txt"}) { S* t = fs().find(tm + f); ok("template still there", t, "", NAME); if (t) eq("template unchanged", *t, S("template ") + f, NAME); }
  if (!stale) ok("number of files", fs().files.size() == had + 6 + (py ? 1 : 0) + (cas ? 1 : 0) + (cpy ? 12 : 0), "other files are written", NAME);
}
int main(int argc, char** argv) { return vs::run(argc, argv, {{"names", [] { scenario({12, 4, 1, false}); }}, {"files", [] { scenario({2, 2, 1, true}); }}, {"names_thorough", [] { scenario({24, 6, 2, false}); }}, {"files_thorough", [] { scenario({3, 3, 2, true}); }}}, {"thunder_main.cpp: main", "thunder_main.cpp: copy_to"}); }

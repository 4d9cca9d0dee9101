// Builds a robot with the real code and generates the library and the class the way the command line does,
// plus a table of the model functions and their saved CasADi form.
// vgen <config.yaml> <name> <outdir> <template dir> <python 0|1> [user functions 0|1|2]
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include "robot.h"
#include "utils.h"
using namespace thunder_ns;
int main(int argc, char** argv) {
  std::string conf = argv[1], name = argv[2], out = std::string(argv[3]) + "/", tmpl = std::string(argv[4]) + "/";
  bool py = argv[5][0] == '1', user = argc > 6 && argv[6][0] != '0', light = argc > 6 && argv[6][0] == '2';   // light: no model functions, for long robots
  std::filesystem::create_directories(out);
  std::stringstream sink; auto* co = std::cout.rdbuf(sink.rdbuf());
  Robot raw(conf); auto masks = raw.symb;               // masks as configured
  Robot robot = robot_from_file(name, conf, light ? 0 : 1);
  if (user) {
    casadi::SX q = robot.model["q"], dq = robot.model["dq"], M = light ? casadi::SX() : robot.model["M"];
    if (!light && !robot.add_function("user_energy", casadi::SX::mtimes({dq.T(), M, dq}) / 2, robot.obtain_symb_parameters({"q", "dq"}, {"par_DHtable", "par_world2L0", "par_DYN"}), "user energy")) return 4;
    if (!robot.add_function("user_w", robot.model["w"](1) * q, {"w", "q"}, "user wrench")) return 4;
    // what the class holds, made visible through functions of the public interface
    std::vector<std::string> vs{"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w"}; if (robot.get_numElasticJoints() && robot.get_ELASTIC()) for (auto v : {"x", "dx", "ddx", "ddxr"}) vs.push_back(v);
    for (auto& v : vs) if (!robot.add_function("obs_" + v, robot.model[v], {v}, "observes " + v)) return 4;
    if (!robot.add_function("user_const", casadi::SX::eye(2), {}, "user constant")) return 4;
    // replaced, protected, built on another user function (the results are what harness/wrap.cpp, p22, expects)
    int n = robot.get_numJoints();
    robot.add_function("user_rep", q(0) * robot.model["w"](0), {"q", "w"}, "first form"); robot.add_function("user_rep", casadi::SX::vertcat({dq(0) * 3, robot.model["dqr"](n - 1), q(0) - dq(0)}), {"dqr", "dq", "q"}, "second form");
    robot.add_function("user_keep", casadi::SX::horzcat({dq(n - 1) * 2, q(0) + 1}), {"q", "dq"}, "kept"); robot.add_function("user_keep", q * 7, {"q"}, "refused", false);
    robot.add_function("user_new", dq(0) * q(n - 1), {"q", "dq"}, "new, protected", false);
    robot.add_function("user_chain", robot.model["user_rep"](0) * robot.model["user_keep"](1), {"dq", "q"}, "over user functions");
    // names and descriptions of any form
    robot.add_function("user_Function_with_a_name_of_more_than_sixty_three_characters_2b_kept", q(n - 1) * 5, {"q"}, "two lines\nwith \"quotes\", a \\ and // marks */ and the word robot"); robot.add_function("robot_thunder_robot", dq(0) - 4, {"dq"}, "\\"); robot.add_function("U", q(0) + 8, {"q"});
    robot.add_function("user_tie", q(0), {"q"}, "shape"); robot.add_function("user_tie", casadi::SX::eye(3) * dq(0), {"q", "dq"}, "other shape, larger"); robot.add_function("user_tie", dq(0) + 1, {"dq"}, "other shape, smaller");
  }
  robot.generate_library(out, name + "_gen", true);
  std::string h = out + "thunder_" + name + ".h", c = out + "thunder_" + name + ".cpp";
  std::filesystem::copy_file(tmpl + "thunder_robot.h", h, std::filesystem::copy_options::overwrite_existing);
  std::filesystem::copy_file(tmpl + "thunder_robot.cpp", c, std::filesystem::copy_options::overwrite_existing);
  for (auto& f : {h, c}) std::filesystem::permissions(f, std::filesystem::perms::owner_write, std::filesystem::perm_options::add);
  if (!change_to_robot("robot", name, robot, h, c, py)) return 5;
  robot.save_conf(out + name + "_conf.yaml"); robot.save_par_REG(out + name + "_par_REG.yaml");
  std::cout.rdbuf(co);
  std::ofstream t(out + "table.txt");
  t << "robot " << name << " " << robot.get_numJoints() << " " << robot.get_numElasticJoints() << " " << robot.get_Dl_order() << " " << robot.get_K_order() << " " << robot.get_D_order() << " " << robot.get_Dm_order() << " " << (robot.get_ELASTIC() ? 1 : 0) << "\n";
  t << "types"; for (auto& s : robot.get_jointsType()) t << " " << s; t << "\n";
  for (auto& m : masks) { t << "mask " << m.first; for (int v : m.second) t << " " << (v ? 1 : 0); t << "\n"; }
  for (auto& f : robot.get_functions(false)) {
    std::string n = f.name; f.fun.save(out + "ref_" + n + ".casadi");
    t << "fun " << n << " " << f.fun.size1_out(0) << " " << f.fun.size2_out(0) << " " << f.fun.n_in();
    for (size_t k = 0; k < f.args.size(); k++) t << " " << f.args[k] << ":" << f.fun.numel_in(k);
    t << "\n";
  }
  std::cout << "{\"kind\":\"gen\",\"functions\":" << robot.get_functions().size() << "}" << std::endl;
  return 0;
}

// stands in for the library's robot.h when only the text handling of utils.cpp is executed
#pragma once
#include "utils.h"
namespace thunder_ns {
typedef struct fun_obj fun_obj;
class Robot {
 public:
  std::string robotName; std::map<std::string, std::vector<int>> symb; std::vector<fun_obj> funs;
  int nj = 3, ne = 1; std::vector<int> isE{0, 1, 0};
  int get_numJoints() { return nj; } int get_numElasticJoints() { return ne; } bool get_ELASTIC() { return ne > 0; }
  int get_K_order() { return 2; } int get_D_order() { return 1; } int get_Dl_order() { return 2; } int get_Dm_order() { return 3; }
  std::vector<int> get_isElasticJoint() { return isE; } std::vector<fun_obj> get_functions(bool onlyNames = 1) { return funs; }
};
}

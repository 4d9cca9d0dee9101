// The copy of the helpers kept by the URDF tool.
#include <vector>
#include <string>
#include "urdf2dh_inertial.h"
#include "rigid.hpp"
int main(int argc, char** argv) { return sc::run(argc, argv, {{"p21", [](const std::vector<std::string>&) { rigid::all(); }}}); }

// prints the names the generated Python module exposes
#include <pybind11/pybind11.h>
#include <iostream>
int main() { for (auto& b : pybind11::registry()) std::cout << b.name << "\n"; }

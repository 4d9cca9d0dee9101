// Runtime behind -fsanitize=thread instrumentation: records every memory access of a thread, or makes the accesses
// follow a given order.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace rt {
enum Kind : uint8_t { READ, WRITE, LOCK, UNLOCK, ATOMIC };
struct Ev { uint64_t addr; uint32_t size; uint8_t kind; std::string val; };   // val: bytes read, or bytes written
struct Trace { std::vector<Ev> ev; bool complete = true; };
void begin(int slot, Trace* out);                 // this thread becomes thread <slot> of the experiment
void end();
void schedule(const std::vector<std::pair<int, int>>& order);   // (thread, index of its event), executed in this order
bool diverged();
}

// Controlled scheduler for compiler-instrumented code: every memory access of the code under test is reported here.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <vector>

namespace rt
{
struct Access { uintptr_t addr; uint16_t size; bool write; };
using Log = std::vector<Access>;

// A task runs library code between pure::on() and pure::off().
// solo: run alone and log all accesses to memory that is not private to the task
void solo(const std::function<void()> &f, Log &log);
// `where`: number of shared accesses (counted per task, only those `relevant`) after which the running task is preempted: where[0] for the
// first task (runs first), where[1] for the second, where[2] for the first again ...
struct Result { bool stalled = false, deadlock = false; uint64_t points = 0; };
Result pair(const std::function<void()> &a, const std::function<void()> &b, const std::vector<long> &where,
            const std::vector<std::pair<uintptr_t, uintptr_t>> *only);
}

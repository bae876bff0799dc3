// Deterministic runtime for the library's internal parallel regions, and exact footprints.
// The library objects are compiled with -fsanitize=thread -fopenmp but linked against neither libtsan nor
// libgomp: every memory access and every OpenMP call comes here.  Team members are coroutines of one OS
// thread, run in an order the script chooses; accesses are recorded per synchronisation epoch.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sch {
// mode 0: members run to their next synchronisation point in the order of `perm` (several permutations of
// 0..T-1 one after the other, used cyclically; empty: pseudo random from seed); mode 1: preemption at memory
// accesses, pseudo random from seed
void set(int T, int mode, uint64_t seed, const std::vector<int>& perm);
struct Range { uintptr_t lo, hi; bool write; };
void begin_call(int owner, const std::vector<Range>& user, int home);   // owner: slot of the user; home: slot of the object
std::string end_call();                                       // JSON members, starting with ","
uint64_t work();                                              // bytes read and written outside the stacks since the call began
struct Job { int owner, home; std::function<void()> f; };
std::string concurrent(const std::vector<Job>& jobs, uint64_t seed);   // user-level threads, one epoch
void know(int slot, int which, uintptr_t lo, uintptr_t hi);   // a user array
void forget_users();
}

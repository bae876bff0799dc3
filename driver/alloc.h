// Interposed allocator: every allocation the library makes while one of its public calls is running is
// tracked, filled with a chosen pattern, surrounded by canaries (or guard pages), and can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace va {
struct Block { uintptr_t p; size_t n; int owner; int live; uintptr_t base; size_t maplen; };
extern thread_local int inlib;      // >0: a library call is running in this thread; value = owner+1
extern int fill;             // 0 = NaN bytes, 1 = pseudo random finite garbage, 2 = zero
extern int guard;            // 1 = guard pages
extern long failat;          // fail the k-th allocation from now on (1-based), 0 = never
extern long count;           // allocations seen since reset
extern size_t lastreq;       // size of the last request
extern long held, peak;      // bytes the library holds, and the most it held since peak was last set to held
extern long failed;          // allocations that were made to fail
extern long badfree;         // frees of something not live (double, foreign)
extern long canary;          // canary damage found
extern int  freeze;          // library allocations happening when they must not (in transforms) are counted here
long live_blocks(int owner = -1);
long live_bytes(int owner = -1);
void arm(long k);
bool check_all();            // check all canaries of live blocks
struct In { int old; explicit In(int owner) { old = inlib; inlib = owner + 1; } ~In() { inlib = old; } };
const Block* find(uintptr_t a);   // live block that contains a, or null
bool quarantine_ok();          // no freed block was written to
void forget();               // drop all tracked blocks (start of a case)
static const int ONCE = 999;  // owner of what is allocated inside the guarded initialisation of a function-local static
extern long gen;              // changes whenever the set of blocks changes
extern int once_depth;        // >0: inside such an initialisation
void snapshot(std::vector<Block>& v);
extern size_t min_align;     // smallest alignment seen among library allocations' requests
}

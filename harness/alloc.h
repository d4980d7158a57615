// Interposed allocator: ledger, fault injection, fill patterns, guard pages.  Only calls made from the program's own
// text (library code linked in, while armed) are tracked; the C/C++/OpenMP runtimes' own allocations pass through.
#pragma once
#include <cstddef>
namespace mem {
extern volatile int armed;      // track allocations from now on
extern long calls;              // tracked acquisitions since reset_calls
extern long frees;              // tracked releases since reset_calls
extern long fail_at;            // fail the k-th tracked acquisition (0 = first); -1 never
extern int fail_persist;        // ... and all later ones
extern long failed;             // number of injected failures
extern long live, live_bytes;   // tracked blocks not released
extern size_t last_size;         // size of the last tracked request, satisfied or not
extern long bad_free;           // releases with the wrong function / of something already released
extern char bad_msg[256];
extern int fill;                // byte-pattern selector for fresh memory: 0 leave, 1 zero, 2 NaN, 3 large values, 4 0xff..
extern int off;                 // do not track at all: the natural heap, with reuse of released blocks
extern int guard;               // 0 heap, 1 guard page right behind the block, 2 guard page right before the block
void reset_calls();
void collect();                 // unmap quarantined guard blocks
bool slack_ok();                // gaps between block and guard still hold their canaries
void fillmem(void* p, size_t n, int pattern);
struct Arm { Arm() { if (!off) armed++; } ~Arm() { if (!off) armed--; } };
}

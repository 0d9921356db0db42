// Tracking / fault-injecting allocator installed through the library's memory hooks, and control of the
// instruction-set level the library believes it runs on (linked with --wrap=croaring_hardware_support).
#pragma once
#include <roaring/memory.h>
#include <roaring/roaring.h>
#include "mc.hpp"
extern "C" int __real_croaring_hardware_support(void);
extern int g_isa;
namespace hk {
struct Hdr {
    uint64_t magic;
    uint64_t size;
    uint64_t kind;  // 1 plain, 2 aligned
    uint64_t off;   // distance from the block start
};
static const uint64_t M_LIVE = 0x11bea110c8ed0001ULL, M_DEAD = 0xdeadbeefdead0002ULL;
struct State {
    int64_t live = 0, live_bytes = 0;
    uint64_t calls = 0;         // allocation calls (malloc, calloc, realloc growing, aligned)
    int64_t fail_at = -1;       // fail the allocation call with this index (0-based since arm())
    bool fail_forever = false;
    uint64_t failed = 0;
    uint64_t foreign = 0;       // raw libc allocation calls from library objects
    uint64_t max_request = 0;   // largest single request since reset
    uint64_t limit = 1ULL << 33;
    bool armed = false;
};
extern State S;
void install();
void arm(int64_t at, bool forever);
void disarm();
}  // namespace hk

// race_rt.h - a recording runtime behind the hooks of -fsanitize=thread: while on, every access of the instrumented
// code is classified; what is neither on the stack of the query nor allocated by it is shared, and is recorded.
#ifndef VERIF_RACE_RT_H
#define VERIF_RACE_RT_H
#include <cstddef>
#include <cstdint>
namespace race {
struct Access { uintptr_t addr; uint32_t size; bool write; void* pc; };
void begin();              // from here on allocations come from an own arena, and accesses are recorded
void end();                // stop recording
void own(void* p, size_t n);   // memory that belongs to the query (its request and result)
const Access* writes(size_t& n);   // shared locations written, the first few
uint64_t reads();          // shared reads seen
uint64_t events();
bool read_before(uintptr_t a, size_t n);
}
#endif

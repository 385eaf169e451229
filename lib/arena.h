// arena.h - deterministic addresses for one execution.  Include in exactly one TU.
// While arena::on, operator new hands out never-reused addresses from a fixed region,
// growing upwards or downwards (so that both orders of pointer comparisons are
// explored), with poisoned red zones; delete poisons.  Needs -fsanitize=address to
// detect bad accesses.  live()/bytes() expose leaks.
#ifndef VERIF_ARENA_H
#define VERIF_ARENA_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define AR_POISON(p, n) __asan_poison_memory_region(p, n)
#define AR_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define AR_POISON(p, n) ((void)0)
#define AR_UNPOISON(p, n) ((void)0)
#endif
namespace arena {
static const size_t SIZE = 256u << 20;
static char* base = nullptr; static size_t lo = 0, hi = 0; static bool on = false, down = false; static long live_n = 0; static bool overflow = false;
inline void init() {
  if (base) return;
  base = (char*)mmap((void*)0x200000000000ull, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) abort();
  lo = 0; hi = SIZE; AR_POISON(base, SIZE);
}
inline void begin(bool downwards) {
  init();
  AR_POISON(base, lo); AR_POISON(base + hi, SIZE - hi);
  lo = 0; hi = SIZE; down = downwards; live_n = 0; on = true;
}
inline void end() { on = false; }
inline long live() { return live_n; }
struct Pause { bool was; Pause() : was(on) { on = false; } ~Pause() { on = was; } };
inline void* get(size_t n) {
  if (on) {
    size_t need = ((n + 15) & ~size_t(15)) + 32;      // 16 header (size) + data + >=16 red zone
    if (hi - lo < need + 64) throw std::bad_alloc();
    char* p;
    if (down) { hi -= need; p = base + hi; } else { p = base + lo; lo += need; }
    AR_UNPOISON(p, 8); *(size_t*)p = n; AR_POISON(p, 8);
    AR_UNPOISON(p + 16, n ? n : 1); ++live_n;
    // fill with junk so that reads of uninitialised memory do not look like zero
    __builtin_memset(p + 16, 0xA5, n);
    return p + 16;
  }
  void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
inline void put(void* q) {
  if (!q) return;
  if (base && (char*)q >= base && (char*)q < base + SIZE) {
    char* p = (char*)q - 16;
#if defined(__SANITIZE_ADDRESS__)
    if (__asan_address_is_poisoned(q)) { volatile char c = *(volatile char*)q; (void)c; }   // double free: report
#endif
    AR_UNPOISON(p, 8); size_t n = *(size_t*)p; AR_POISON(p, 8); AR_POISON(q, n ? n : 1); --live_n; return;
  }
  free(q);
}
}
void* operator new(size_t n) { return arena::get(n); }
void* operator new[](size_t n) { return arena::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arena::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arena::get(n); }
void operator delete(void* p) noexcept { arena::put(p); }
void operator delete[](void* p) noexcept { arena::put(p); }
void operator delete(void* p, size_t) noexcept { arena::put(p); }
void operator delete[](void* p, size_t) noexcept { arena::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena::put(p); }
#endif

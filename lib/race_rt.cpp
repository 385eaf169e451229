// race_rt.cpp - see race_rt.h; compiled without instrumentation
#include "race_rt.h"
#include <cerrno>
#include <link.h>
#include <cstring>
#include <cstdlib>
#include <pthread.h>
#include <sys/mman.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); extern char __libc_single_threaded; }
namespace race {
static bool on = false; static uintptr_t a0, a1, top, s0, s1; static const size_t ARENA = size_t(256) << 20, MAXW = 64; static Access w[MAXW]; static size_t nw; static uint64_t nr, ne; static uintptr_t own0[8], own1[8]; static int nown;
static uintptr_t tls0[32], tls1[32]; static int ntls;
static int on_module(dl_phdr_info* i, size_t, void*) { if (i->dlpi_tls_data) for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && ntls < 32) { tls0[ntls] = (uintptr_t)i->dlpi_tls_data; tls1[ntls++] = (uintptr_t)i->dlpi_tls_data + i->dlpi_phdr[k].p_memsz; } return 0; }
static void init() { if (a0) return; dl_iterate_phdr(on_module, nullptr); a0 = (uintptr_t)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); a1 = a0 + ARENA; top = a0; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* b; size_t n; pthread_attr_getstack(&at, &b, &n); pthread_attr_destroy(&at); s0 = (uintptr_t)b; s1 = s0 + n; }
void own(void* p, size_t n) { if (nown < 8) { own0[nown] = (uintptr_t)p; own1[nown++] = (uintptr_t)p + n; } }
void begin() { init(); ne = 0; __libc_single_threaded = 0; top = a0; nw = 0; nr = 0; on = true; }   // reference counts are updated atomically, as with threads
void end() { on = false; nown = 0; }
const Access* writes(size_t& n) { n = nw; return w; }
uint64_t reads() { return nr; }
uint64_t events() { return ne; }
static inline void hit(void* p, size_t n, bool wr, void* pc) {
  if (!on) return; ++ne; uintptr_t a = (uintptr_t)p; if ((a >= a0 && a < a1) || (a >= s0 && a < s1)) return; for (int i = 0; i < ntls; ++i) if (a >= tls0[i] && a < tls1[i]) return; for (int i = 0; i < nown; ++i) if (a >= own0[i] && a < own1[i]) return;
  if (!wr) { ++nr; return; } for (size_t i = 0; i < nw; ++i) if (w[i].addr == a) return; if (nw < MAXW) w[nw++] = Access{a, (uint32_t)n, true, pc};
}
static void* take(size_t n, size_t al) { uintptr_t p = (top + 16 + al - 1) & ~(uintptr_t)(al - 1); if (p + n + 64 > a1) return nullptr; ((size_t*)p)[-1] = n; top = p + n; return (void*)p; }
static inline bool mine(void* p) { return (uintptr_t)p >= a0 && (uintptr_t)p < a1 && a0; }
}
using namespace race;
extern "C" {
void* malloc(size_t n) { return on ? take(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!mine(p)) __libc_free(p); }
void* calloc(size_t n, size_t m) { if (!on) return __libc_calloc(n, m); void* p = take(n * m, 16); if (p) __builtin_memset(p, 0, n * m); return p; }
void* realloc(void* p, size_t n) { if (mine(p) || (on && !p)) { void* q = on ? take(n, 16) : __libc_malloc(n); if (q && p) { size_t o = ((size_t*)p)[-1]; __builtin_memcpy(q, p, o < n ? o : n); } return q; } return __libc_realloc(p, n); }
void* memalign(size_t al, size_t n) { return on ? take(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return *r ? 0 : ENOMEM; }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { void* pc = __builtin_return_address(0); if (n) { hit(d, n, true, pc); hit((void*)s, n, false, pc); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { void* pc = __builtin_return_address(0); if (n) { hit(d, n, true, pc); hit((void*)s, n, false, pc); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (n) hit(d, n, true, __builtin_return_address(0)); return __real_memset(d, v, n); }
#define R(N) void __tsan_read##N(void* p) { hit(p, N, false, __builtin_return_address(0)); } void __tsan_unaligned_read##N(void* p) { hit(p, N, false, __builtin_return_address(0)); } \
  void __tsan_write##N(void* p) { hit(p, N, true, __builtin_return_address(0)); } void __tsan_unaligned_write##N(void* p) { hit(p, N, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##N(void* p) { hit(p, N, false, __builtin_return_address(0)); } void __tsan_volatile_write##N(void* p) { hit(p, N, true, __builtin_return_address(0)); }
R(1) R(2) R(4) R(8) R(16)
void __tsan_read_range(void* p, size_t n) { hit(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { hit(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) hit(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { hit(p, 8, false, __builtin_return_address(0)); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {}
#define A(B, T) T __tsan_atomic##B##_load(const volatile T* p, int) { return __atomic_load_n(p, 5); } void __tsan_atomic##B##_store(volatile T* p, T v, int) { __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned) A(64, unsigned long)
}

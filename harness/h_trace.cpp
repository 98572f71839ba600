// Stand-ins for the ThreadSanitizer runtime: they report accesses to the database's shared mappings.
#include "trace.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>
thread_local TraceHook g_hook = nullptr;
extern "C" { bool g_traced = false; }
static struct { uintptr_t lo, hi; } R[256];
static volatile int nR = 0;
static inline bool in(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    for (int i = 0; i < nR; i++) if (a >= R[i].lo && a < R[i].hi) return true;
    return false;
}
void trace_refresh(const char* dir)
{
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f) return;
    char l[1024]; int n = 0;
    while (fgets(l, sizeof l, f) && n < 250)
        if (strstr(l, dir) && strstr(l, "s ")) { unsigned long a, b; char pr[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, pr) == 3 && pr[3] == 's') { R[n].lo = a; R[n].hi = b; n++; } }
    fclose(f);
    nR = n;
}
static inline void ev(int k, const void* p) { TraceHook h = g_hook; if (h && in(p)) h(k); }
#ifdef TRACED
extern "C" {
void __tsan_init() { g_traced = true; }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
void __tsan_read_range(void* p, unsigned long) { ev(TR_READ, p); }
void __tsan_write_range(void* p, unsigned long) { ev(TR_WRITE, p); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) { }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
static size_t cut(size_t n) { return n <= 16 ? n / 2 : n / 3; }
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (g_hook && n) {
        if (in(d)) { g_hook(TR_WRITE); if (n > 1) { size_t k = cut(n); __real_memcpy(d, s, k); if (g_hook) g_hook(TR_WRITE); __real_memcpy((char*)d + k, (const char*)s + k, n - k); return d; } }
        else if (in(s)) { g_hook(TR_READ); if (n > 1) { size_t k = cut(n); __real_memcpy(d, s, k); if (g_hook) g_hook(TR_READ); __real_memcpy((char*)d + k, (const char*)s + k, n - k); return d; } }
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_hook && n) { if (in(d)) g_hook(TR_WRITE); else if (in(s)) g_hook(TR_READ); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (g_hook && n && in(d)) g_hook(TR_WRITE); return __real_memset(d, c, n); }
ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (g_hook && n) { g_hook(TR_WRITE); if (n > 1) { size_t k = cut(n); if (__real_pwrite(fd, b, k, o) != (ssize_t)k) return -1; if (g_hook) g_hook(TR_WRITE); ssize_t r = __real_pwrite(fd, (const char*)b + k, n - k, o + k); return r < 0 ? r : r + (ssize_t)k; } }
    return __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { if (g_hook) g_hook(TR_READ); return __real_pread(fd, b, n, o); }
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o)
{
    void* p = __real_mmap(a, n, pr, fl, fd, o);
    if (g_hook && p != MAP_FAILED && (fl & MAP_SHARED) && fd >= 0 && nR < 255) { R[nR].lo = (uintptr_t)p; R[nR].hi = (uintptr_t)p + n; nR = nR + 1; }
    return p;
}
void __tsan_read1(void* p) { ev(TR_READ, p); }
void __tsan_volatile_read1(void* p) { ev(TR_READ, p); }
void __tsan_read2(void* p) { ev(TR_READ, p); }
void __tsan_volatile_read2(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_read2(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_volatile_read2(void* p) { ev(TR_READ, p); }
void __tsan_read4(void* p) { ev(TR_READ, p); }
void __tsan_volatile_read4(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_read4(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_volatile_read4(void* p) { ev(TR_READ, p); }
void __tsan_read8(void* p) { ev(TR_READ, p); }
void __tsan_volatile_read8(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_read8(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_volatile_read8(void* p) { ev(TR_READ, p); }
void __tsan_read16(void* p) { ev(TR_READ, p); }
void __tsan_volatile_read16(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_read16(void* p) { ev(TR_READ, p); }
void __tsan_unaligned_volatile_read16(void* p) { ev(TR_READ, p); }
void __tsan_write1(void* p) { ev(TR_WRITE, p); }
void __tsan_volatile_write1(void* p) { ev(TR_WRITE, p); }
void __tsan_write2(void* p) { ev(TR_WRITE, p); }
void __tsan_volatile_write2(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_write2(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_volatile_write2(void* p) { ev(TR_WRITE, p); }
void __tsan_write4(void* p) { ev(TR_WRITE, p); }
void __tsan_volatile_write4(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_write4(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_volatile_write4(void* p) { ev(TR_WRITE, p); }
void __tsan_write8(void* p) { ev(TR_WRITE, p); }
void __tsan_volatile_write8(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_write8(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_volatile_write8(void* p) { ev(TR_WRITE, p); }
void __tsan_write16(void* p) { ev(TR_WRITE, p); }
void __tsan_volatile_write16(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_write16(void* p) { ev(TR_WRITE, p); }
void __tsan_unaligned_volatile_write16(void* p) { ev(TR_WRITE, p); }
uint8_t __tsan_atomic8_load(const volatile uint8_t* p, int) { ev(TR_READ, (const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_exchange(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t* p, uint8_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
bool __tsan_atomic8_compare_exchange_strong(volatile uint8_t* p, uint8_t* e, uint8_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
bool __tsan_atomic8_compare_exchange_weak(volatile uint8_t* p, uint8_t* e, uint8_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t* p, uint8_t e, uint8_t v, int, int) { ev(TR_WRITE, (const void*)p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
uint16_t __tsan_atomic16_load(const volatile uint16_t* p, int) { ev(TR_READ, (const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_exchange(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t* p, uint16_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
bool __tsan_atomic16_compare_exchange_strong(volatile uint16_t* p, uint16_t* e, uint16_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
bool __tsan_atomic16_compare_exchange_weak(volatile uint16_t* p, uint16_t* e, uint16_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t* p, uint16_t e, uint16_t v, int, int) { ev(TR_WRITE, (const void*)p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
uint32_t __tsan_atomic32_load(const volatile uint32_t* p, int) { ev(TR_READ, (const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_exchange(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t* p, uint32_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
bool __tsan_atomic32_compare_exchange_strong(volatile uint32_t* p, uint32_t* e, uint32_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
bool __tsan_atomic32_compare_exchange_weak(volatile uint32_t* p, uint32_t* e, uint32_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t* p, uint32_t e, uint32_t v, int, int) { ev(TR_WRITE, (const void*)p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
uint64_t __tsan_atomic64_load(const volatile uint64_t* p, int) { ev(TR_READ, (const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_exchange(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t* p, uint64_t v, int) { ev(TR_WRITE, (const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
bool __tsan_atomic64_compare_exchange_strong(volatile uint64_t* p, uint64_t* e, uint64_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
bool __tsan_atomic64_compare_exchange_weak(volatile uint64_t* p, uint64_t* e, uint64_t v, int, int) { ev(TR_WRITE, (const void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t* p, uint64_t e, uint64_t v, int, int) { ev(TR_WRITE, (const void*)p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
}
#endif

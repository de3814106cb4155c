// Stand-in for the thread sanitizer's runtime: every atomic access of instrumented code is a
// point at which the replay runtime may switch threads. Compiled and linked by check.py.
#include <stdint.h>
#include <string.h>
extern void verif_point(void);
#define NOP1(n) void n(void *p) {}
#define NOP2(n) void n(void *p, uintptr_t k) {}
void __tsan_init(void) {}
void __tsan_func_exit(void) {}
NOP1(__tsan_func_entry)
NOP1(__tsan_vptr_read)
NOP2(__tsan_vptr_update)
NOP2(__tsan_read_range)
NOP2(__tsan_write_range)
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define ACC(k) \
    NOP1(__tsan_read##k) NOP1(__tsan_write##k) NOP1(__tsan_read_write##k) \
    NOP1(__tsan_unaligned_read##k) NOP1(__tsan_unaligned_write##k) NOP1(__tsan_unaligned_read_write##k) \
    NOP1(__tsan_volatile_read##k) NOP1(__tsan_volatile_write##k) \
    NOP1(__tsan_unaligned_volatile_read##k) NOP1(__tsan_unaligned_volatile_write##k)
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void *__tsan_memcpy(void *d, const void *s, uintptr_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, uintptr_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, uintptr_t n) { return memset(d, c, n); }
#define O __ATOMIC_SEQ_CST
#define ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int o) { verif_point(); return __atomic_load_n(p, O); } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int o) { verif_point(); __atomic_store_n(p, v, O); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { verif_point(); return __atomic_exchange_n(p, v, O); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { verif_point(); return __atomic_fetch_add(p, v, O); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { verif_point(); return __atomic_fetch_sub(p, v, O); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { verif_point(); return __atomic_fetch_and(p, v, O); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { verif_point(); return __atomic_fetch_or(p, v, O); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { verif_point(); return __atomic_fetch_xor(p, v, O); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { verif_point(); return __atomic_fetch_nand(p, v, O); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { verif_point(); return __atomic_compare_exchange_n(p, c, v, 0, O, O); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { verif_point(); return __atomic_compare_exchange_n(p, c, v, 0, O, O); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { verif_point(); __atomic_compare_exchange_n(p, &c, v, 0, O, O); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(O); }
void __tsan_atomic_signal_fence(int o) {}

/* Entry points of the thread sanitizer's instrumentation, used as preemption points of simulated
 * threads, and the baton of these threads. No data race detection takes place here. */
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define MAXT 4096
int mt_on, mt_plain;
int64_t mt_left;
uint64_t mt_points;
static __thread int off = 1;
void mt_preempt(void);
void mt_off(int d) { off += d; }

static inline void pt(void) {
    if (__builtin_expect(mt_on, 0) && !off) {
        mt_points++;
        if (--mt_left <= 0) {
            off++;
            mt_preempt();
            off--;
        }
    }
}
static inline void pl(void) {
    if (__builtin_expect(mt_plain, 0)) pt();
}

static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t c[MAXT]; /* (zero is PTHREAD_COND_INITIALIZER) */
static volatile int cur;
void mt_wait_turn(int me) {
    pthread_mutex_lock(&m);
    while (cur != me) pthread_cond_wait(&c[me], &m);
    pthread_mutex_unlock(&m);
}
void mt_hand(int to) {
    pthread_mutex_lock(&m);
    cur = to;
    pthread_cond_signal(&c[to]);
    pthread_mutex_unlock(&m);
}
void mt_switch(int me, int to) {
    pthread_mutex_lock(&m);
    cur = to;
    pthread_cond_signal(&c[to]);
    while (cur != me) pthread_cond_wait(&c[me], &m);
    pthread_mutex_unlock(&m);
}

void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
    void __tsan_read##n(void *a) { pl(); } \
    void __tsan_write##n(void *a) { pl(); } \
    void __tsan_unaligned_read##n(void *a) { pl(); } \
    void __tsan_unaligned_write##n(void *a) { pl(); } \
    void __tsan_volatile_read##n(void *a) { pl(); } \
    void __tsan_volatile_write##n(void *a) { pl(); } \
    void __tsan_unaligned_volatile_read##n(void *a) { pl(); } \
    void __tsan_unaligned_volatile_write##n(void *a) { pl(); } \
    void __tsan_read_write##n(void *a) { pl(); } \
    void __tsan_unaligned_read_write##n(void *a) { pl(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { pl(); }
void __tsan_write_range(void *a, size_t n) { pl(); }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { pl(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { pl(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { pl(); return memset(d, v, n); }

#define SC __ATOMIC_SEQ_CST
#define OP(t, b, name, f) t __tsan_atomic##b##_##name(volatile t *a, t v, int mo) { pt(); return f(a, v, SC); }
#define AT(t, b) \
    t __tsan_atomic##b##_load(const volatile t *a, int mo) { pt(); return __atomic_load_n(a, SC); } \
    void __tsan_atomic##b##_store(volatile t *a, t v, int mo) { pt(); __atomic_store_n(a, v, SC); } \
    OP(t, b, exchange, __atomic_exchange_n) OP(t, b, fetch_add, __atomic_fetch_add) \
    OP(t, b, fetch_sub, __atomic_fetch_sub) OP(t, b, fetch_and, __atomic_fetch_and) \
    OP(t, b, fetch_or, __atomic_fetch_or) OP(t, b, fetch_xor, __atomic_fetch_xor) \
    OP(t, b, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *e, t v, int mo, int fmo) { \
        pt(); return __atomic_compare_exchange_n(a, e, v, 0, SC, SC); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *e, t v, int mo, int fmo) { \
        pt(); return __atomic_compare_exchange_n(a, e, v, 0, SC, SC); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t e, t v, int mo, int fmo) { \
        pt(); __atomic_compare_exchange_n(a, &e, v, 0, SC, SC); return e; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo) { pt(); __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) {}

#include <stdint.h>
#include <stddef.h>
#include <pthread.h>
extern "C" {
void* rt_malloc(size_t, void*); void* rt_calloc(size_t, size_t, void*); void* rt_realloc(void*, size_t, void*); void rt_free(void*);
void rt_nopre(int); int rt_mutex_lock(pthread_mutex_t*, int (*)(pthread_mutex_t*), int (*)(pthread_mutex_t*));
void* __wrap_malloc(size_t n) { return rt_malloc(n, __builtin_return_address(0)); }
void* __wrap_calloc(size_t a, size_t b) { return rt_calloc(a, b, __builtin_return_address(0)); }
void* __wrap_realloc(void* p, size_t n) { return rt_realloc(p, n, __builtin_return_address(0)); }
void __wrap_free(void* p) { rt_free(p); }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return rt_mutex_lock(m, pthread_mutex_trylock, __real_pthread_mutex_lock); }
int __real_pthread_once(pthread_once_t*, void (*)(void));
struct NoPre { NoPre() { rt_nopre(1); } ~NoPre() { rt_nopre(-1); } };   // also when the initialiser throws
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { NoPre n; return __real_pthread_once(o, f); }
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) rt_nopre(1); return r; }
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); rt_nopre(-1); }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); rt_nopre(-1); }
}

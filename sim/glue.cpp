// Link-time seams: --wrap redirects these references of the code under test to the runtime. Nothing here depends on the
// library's headers; if it no longer defines one of these functions the seam is simply absent (weak references).
#include <stdint.h>
#include <stddef.h>
extern "C" {
int rt_draw_pre(const void*); void rt_draw_post(const void*, uint32_t*);
void rt_gen_create(const void*, uint32_t); void rt_gen_destroy(const void*);

__attribute__((weak)) int __real_nlopt_sobol_next(void*, uint32_t*);
__attribute__((weak)) void* __real_nlopt_sobol_create(uint32_t);
__attribute__((weak)) void __real_nlopt_sobol_destroy(void*);

__attribute__((visibility("default"))) int __wrap_nlopt_sobol_next(void* s, uint32_t* x)
{
  if (rt_draw_pre(s)) return 0;
  int r = __real_nlopt_sobol_next(s, x);
  if (r) rt_draw_post(s, x);
  return r;
}
__attribute__((visibility("default"))) void* __wrap_nlopt_sobol_create(uint32_t d) { void* s = __real_nlopt_sobol_create(d); rt_gen_create(s, d); return s; }
__attribute__((visibility("default"))) void __wrap_nlopt_sobol_destroy(void* s) { rt_gen_destroy(s); __real_nlopt_sobol_destroy(s); }
}

/* Included in every translation unit of the fault-injection build.  The repository's own fault
 * points (kos_seq_fail) are redirected here by the linker: point number VF_AT and the VF_LEN - 1
 * points after it fail, all others succeed.  With VF_OUT set the number of points passed is
 * written there at exit. */
#ifndef VERIF_FAILINJ_H
#define VERIF_FAILINJ_H
#include <stdlib.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
__attribute__((weak)) volatile long vf_count = 0;
__attribute__((weak)) volatile long vf_at    = -2;
__attribute__((weak)) volatile long vf_len   = 1;
__attribute__((weak)) void vf_report(void)
{
    const char *const out = getenv("VF_OUT");
    FILE *f = out ? fopen(out, "w") : NULL;
    if (f) {
        fprintf(f, "%ld\n", (long)vf_count);
        fclose(f);
    }
}
__attribute__((weak)) int vf_never_fail(void) { return 0; }
void __sanitizer_print_stack_trace(void);
int __wrap_kos_seq_fail(void);
__attribute__((weak)) int __wrap_kos_seq_fail(void)
{
    long n;
    if (vf_at == -2) {
        const char *const at  = getenv("VF_AT");
        const char *const len = getenv("VF_LEN");
        if (len) vf_len = atol(len);
        vf_at = at ? atol(at) : -1;
        if (getenv("VF_OUT")) atexit(vf_report);
    }
    n = __atomic_fetch_add(&vf_count, 1, __ATOMIC_RELAXED);
    if (vf_at < 0 || n < vf_at || n >= vf_at + vf_len)
        return 0;
    if (n == vf_at && getenv("VF_TRACE"))
        __sanitizer_print_stack_trace();
    return 1;
}
#ifdef __cplusplus
}
#endif
#endif

/* Feeds arbitrary bytes to the front end through the public API: as a module loaded from memory
 * (parsed, optimized, compiled, not run).  Any input ends with a module or an exception. */
#include "inc/kos_instance.h"
#include "inc/kos_module.h"
#include "inc/kos_error.h"
#include "inc/kos_object.h"
#include "inc/kos_string.h"
#include "inc/kos_memory.h"
#include "inc/kos_modules_init.h"
#include "inc/kos_utils.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static long accepted, rejected;
static void report(void)
{
    const char *const out = getenv("VF_FUZZ_OUT");
    FILE *f = out ? fopen(out, "w") : NULL;
    if (f) {
        fprintf(f, "%ld %ld\n", accepted, rejected);
        fclose(f);
    }
}

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    (void)argc; (void)argv;
    atexit(report);
    return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    KOS_INSTANCE inst;
    KOS_CONTEXT  ctx;
    char        *copy;

    if (KOS_instance_init(&inst, 0, &ctx))
        abort();
    if (KOS_modules_init(ctx))
        abort();
    copy = (char *)malloc(size ? size : 1);
    memcpy(copy, data, size);
    {
        const KOS_OBJ_ID module = KOS_load_module_from_memory(ctx, "base", 4, copy, (unsigned)size);
        if (IS_BAD_PTR(module)) {
            KOS_VECTOR cstr;
            KOS_OBJ_ID exc;
            if ( ! KOS_is_exception_pending(ctx))
                abort();
            exc = KOS_get_exception(ctx);
            KOS_clear_exception(ctx);
            KOS_vector_init(&cstr);
            if (KOS_object_to_string_or_cstr_vec(ctx, exc, KOS_DONT_QUOTE, NULL, &cstr))
                KOS_clear_exception(ctx);
            KOS_vector_destroy(&cstr);
            ++rejected;
        }
        else {
            if (KOS_is_exception_pending(ctx))
                abort();
            ++accepted;
        }
    }
    free(copy);
    KOS_instance_destroy(&inst);
    return 0;
}

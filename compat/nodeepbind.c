/* sanitizer runtimes refuse RTLD_DEEPBIND, which CasADi uses for its plugins */
#define _GNU_SOURCE
#include <dlfcn.h>

void *dlopen(const char *name, int flags)
{
    static void *(*next)(const char *, int);
    if (!next)
        next = (void *(*)(const char *, int)) dlsym(RTLD_NEXT, "dlopen");
    return next(name, flags & ~RTLD_DEEPBIND);
}

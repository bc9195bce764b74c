/* Compiler wrapper for generated code (make's $(CC)): replaces -O* by the flags of the
 * library variant, adds rpaths, makes missing declarations and type mismatches errors.
 * Objects of generated CasADi functions are shared within one check run ($VP_OBJCACHE),
 * keyed by command and file contents. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#ifndef VARIANT
#define VARIANT "plain"
#endif
#ifndef CASADI
#define CASADI ""
#endif
static const char *san[] = {"-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment", NULL};
static unsigned long long h1 = 1469598103934665603ULL, h2 = 88172645463325252ULL;
static void mix(const char *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        h1 = (h1 ^ (unsigned char) p[i]) * 1099511628211ULL;
        h2 = (h2 + (unsigned char) p[i] + 1) * 6364136223846793005ULL + 1442695040888963407ULL;
    }
}
static int copy(const char *a, const char *b)
{
    FILE *f = fopen(a, "rb"), *g;
    char buf[65536], tmp[4200];
    size_t n;
    if (!f) return 1;
    snprintf(tmp, sizeof tmp, "%s.%d.tmp", b, (int) getpid());
    g = fopen(tmp, "wb");
    if (!g) { fclose(f); return 1; }
    while ((n = fread(buf, 1, sizeof buf, f)) > 0)
        if (fwrite(buf, 1, n, g) != n) { fclose(f); fclose(g); unlink(tmp); return 1; }
    fclose(f);
    if (fclose(g) || rename(tmp, b)) { unlink(tmp); return 1; }
    return 0;
}
int main(int argc, char **argv)
{
    char **a = calloc(2 * argc + 64, sizeof *a), cache[4200] = "";
    int n = 0, c = 0;
    const char *src = NULL, *out = NULL;
    for (int i = 1; i < argc; i++)
        if (!strcmp(argv[i], "-c")) c = 1;
    a[n++] = "gcc"; a[n++] = "-w"; a[n++] = "-Werror=implicit-function-declaration";
    a[n++] = "-Werror=int-conversion"; a[n++] = "-Werror=incompatible-pointer-types";
    if (!strcmp(VARIANT, "asan")) { a[n++] = "-O0"; for (int i = 0; san[i]; i++) a[n++] = (char *) san[i]; }
    else if (!strcmp(VARIANT, "tsan")) { a[n++] = "-O1"; a[n++] = "-g"; a[n++] = "-fsanitize=thread"; }
    else if (!strcmp(VARIANT, "valgrind")) { a[n++] = "-O0"; a[n++] = "-g"; }
    else a[n++] = "-O0";
    for (int i = 1; i < argc; i++)
    {
        if (!strncmp(argv[i], "-O", 2)) continue;
        if (!strcmp(VARIANT, "tsan") && !c && !strcmp(argv[i], "-fopenmp")) continue;
        a[n++] = argv[i];
        if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[i + 1];
        size_t l = strlen(argv[i]);
        if (l > 2 && !strcmp(argv[i] + l - 2, ".c")) src = argv[i];
    }
    if (!c)
    {
        a[n++] = "-Wl,-rpath," CASADI; a[n++] = "-L" CASADI;
        for (int i = 1; i < argc; i++)
            if (!strncmp(argv[i], "-L", 2) && argv[i][2])
            {
                char *s = malloc(strlen(argv[i]) + 32);
                sprintf(s, "-Wl,-rpath,%s", argv[i] + 2);
                a[n++] = s;
            }
    }
    a[n] = NULL;
    const char *cd = getenv("VP_OBJCACHE");
    if (c && cd && src && out && (strstr(src, "_model/") || strstr(src, "_cost/") || strstr(src, "_constraints/")))
    {
        FILE *f = fopen(src, "rb");
        if (f)
        {
            char buf[65536];
            size_t k;
            int ok = 1;
            for (int i = 0; i < n; i++)
                if (strncmp(a[i], "-I", 2) && a[i] != src && a[i] != out) mix(a[i], strlen(a[i]) + 1);
            while ((k = fread(buf, 1, sizeof buf, f)) > 0) mix(buf, k);
            rewind(f);
            while (fgets(buf, sizeof buf, f)) if (!strncmp(buf, "#include \"", 10)) ok = 0;
            fclose(f);
            if (ok) snprintf(cache, sizeof cache, "%s/%016llx%016llx.o", cd, h1, h2);
        }
        if (cache[0] && !copy(cache, out)) return 0;
    }
    if (!cache[0]) { execvp("gcc", a); perror("gcc"); return 127; }
    pid_t p = fork();
    if (p == 0) { execvp("gcc", a); _exit(127); }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
    copy(out, cache);
    return 0;
}

/* Native side of the harness primitives: replays one recorded assignment against the real build. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "v.h"
static FILE* g_in;
static int g_fail;
static unsigned long long next(void)
{
    unsigned long long v = 0;
    if (!g_in || fscanf(g_in, "%llu", &v) != 1) v = 0;
    return v;
}
uint8_t  nd_u8(void)  { return (uint8_t)next(); }
uint16_t nd_u16(void) { return (uint16_t)next(); }
uint32_t nd_u32(void) { return (uint32_t)next(); }
uint64_t nd_u64(void) { return (uint64_t)next(); }
void v_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); exit(g_fail ? 10 : 77); } }
void v_assert(int c, const char* msg) { if (!c) { fprintf(stderr, "REPLAY: violated: %s\n", msg); g_fail = 1; exit(10); } }
void v_cover(const char* msg) { fprintf(stderr, "REPLAY: reached: %s\n", msg); }
void v_observe(const char* what, uint64_t value) { fprintf(stderr, "REPLAY: observed: %s=%llu\n", what, (unsigned long long)value); }
uint64_t v_concrete(uint64_t x) { return x; }
void v_fail(const char* msg) { fprintf(stderr, "REPLAY: violated: %s\n", msg); exit(10); }
void v_stop(void) { exit(0); }
void* v_sys_malloc(size_t n) { void* p = malloc(n); if (p) memset(p, 0xA5, n); return p; }
void* v_sys_bytes(size_t n) { return malloc(n); }
void* v_sys_realloc(void* p, size_t n) { return realloc(p, n); }
void  v_sys_free(void* p) { free(p); }
int   v_readable(const void* p, size_t n) { volatile unsigned char s = 0; size_t i; for (i = 0; i < n; i++) s ^= ((const unsigned char*)p)[i]; return 1; }
void vf_main(void);
int main(int argc, char** argv)
{
    if (argc > 1) g_in = fopen(argv[1], "r");
    vf_main();
    return 0;
}

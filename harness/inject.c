/* C28: the file and allocation fault injectors of the test library against a model of each, over sequences of operations.
   KIND 0: fopen/fclose, 1: fseek, 2: ftell/fwrite, 3: fread, 4: fgets, 5: malloc/realloc, 6: many calls and long lines */
#include "env.h"
#include "ref.h"
#include <FileFailureInject.h>
#include <MallocFailureInject.h>
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fwrite
#undef fread
#undef fgets
#undef malloc
#undef realloc
#undef free
#ifndef KIND
#define KIND 0
#endif
#ifndef STEPS
#define STEPS 5
#endif
/* the C library underneath: notes the call, answers freely */
static unsigned real; static long answer; static const void* a1; static long a2, a3; static const void* a4;
#define NOTE(p, q, r, s) do { real++; a1 = (p); a2 = (long)(q); a3 = (long)(r); a4 = (s); } while (0)
FILE* real_fopen(const char* n, const char* m) { NOTE(n, 0, 0, m); return (FILE*)answer; }
int real_fclose(FILE* f) { NOTE(f, 0, 0, 0); return (int)answer; }
int real_fseek(FILE* f, long o, int w) { NOTE(f, o, w, 0); return (int)answer; }
long real_ftell(FILE* f) { NOTE(f, 0, 0, 0); return answer; }
size_t real_fwrite(const void* p, size_t s, size_t n, FILE* f) { NOTE(p, s, n, f); return (size_t)answer; }
size_t real_fread(void* p, size_t s, size_t n, FILE* f) { NOTE(p, s, n, f); return (size_t)answer; }
char* real_fgets(char* p, int n, FILE* f) { NOTE(p, n, 0, f); return (char*)answer; }
void* real_malloc(size_t n) { NOTE(0, n, 0, 0); return (void*)answer; }
void* real_realloc(void* p, size_t n) { NOTE(p, n, 0, 0); return (void*)answer; }
void real_free(void* p) { NOTE(p, 0, 0, 0); }
static char file, data[4];
#define F ((FILE*)(void*)&file)
#if KIND != 6
static void expect(int passes, long got, long ret)
{
    v_assert(real == (unsigned)passes, "a call reaches the C library exactly when it is not injected");
    v_assert(got == (passes ? answer : ret), "an injected call returns the value asked for, any other what the C library returns");
    if (passes) v_cover("passed through"); else v_cover("injected");
}
#endif
#if KIND == 6
#elif KIND == 0
static int mo, mc; static long ro;
static void step(void)
{
    switch (nd_pick(6))
    {
    case 0: ro = (long)nd_u64(); fopenSetReturn((FILE*)ro); mo = 1; break;
    case 1: fopenRestore(); mo = 0; break;
    case 2: fcloseIgnore(); mc = 1; break;
    case 3: fcloseRestore(); mc = 0; break;
    case 4: expect(!mo, (long)hook_fopen("name", "rb"), ro);
            v_assert(mo || (0 == strcmp(a1, "name") && 0 == strcmp(a4, "rb")), "a call passed through keeps its arguments"); break;
    default: expect(!mc, (answer = (int)answer, hook_fclose(F)), 0);
             v_assert(mc || a1 == F, "a call passed through keeps its arguments");
    }
}
#elif KIND == 1
static int m; static unsigned pass; static int ret;
static void step(void)
{
    switch (nd_pick(3))
    {
    case 0: ret = (int)nd_u32(); pass = nd_pick(3); m = 1;
            if (nd_pick(2)) { fseekSetReturn(ret); fseekSetCallsBeforeFailure(pass); } else { fseekSetCallsBeforeFailure(pass); fseekSetReturn(ret); } break;
    case 1: fseekRestore(); m = 0; break;
    default: { long o = (long)nd_u64(); int w = (int)nd_u32(), p = !m || pass > 0;
               answer = (int)answer;
               if (m && pass) pass--;
               expect(p, hook_fseek(F, o, w), ret);
               v_assert(!p || (a1 == F && a2 == o && a3 == w), "a call passed through keeps its arguments"); }
    }
}
#elif KIND == 2
static int mt, mw; static long rt; static size_t rw;
static void step(void)
{
    switch (nd_pick(6))
    {
    case 0: rt = (long)nd_u64(); ftellFail(rt); mt = 1; break;
    case 1: ftellRestore(); mt = 0; break;
    case 2: rw = (size_t)nd_u64(); fwriteFail(rw); mw = 1; break;
    case 3: fwriteRestore(); mw = 0; break;
    case 4: expect(!mt, hook_ftell(F), rt);
            v_assert(mt || a1 == F, "a call passed through keeps its arguments"); break;
    default: { size_t n = nd_u64(); expect(!mw, (long)hook_fwrite(data, 3, n, F), (long)rw);
               v_assert(mw || (a1 == data && a2 == 3 && a3 == (long)n && a4 == F), "a call passed through keeps its arguments"); }
    }
}
#elif KIND == 3
static int m; static unsigned nth; static size_t ret;     /* m: 0 restored, 1 every read fails, 2 the nth read fails */
static void step(void)
{
    switch (nd_pick(4))
    {
    case 0: ret = (size_t)nd_u64(); freadFail(ret); m = 1; break;
    case 1: freadRestore(); m = 0; break;
    case 2: if (!m) v_stop(); nth = 1 + nd_pick(3); freadToFail((int)nth); m = 2; break;
    default: { size_t n = nd_u64(); int p = m == 0 || (m == 2 && nth > 1);
               if (m == 2) { if (nth == 1) { v_cover("the nth read fails"); m = 0; } nth--; }
               expect(p, (long)hook_fread(data, 1, n, F), (long)ret);
               v_assert(!p || (a1 == data && a2 == 1 && a3 == (long)n && a4 == F), "a call passed through keeps its arguments"); }
    }
}
#elif KIND == 4
static char line[3][8]; static const char* lines[3]; static unsigned count, at; static int m;
static void step(void)
{
    unsigned i, j;
    switch (nd_pick(3))
    {
    case 0: { unsigned shape = nd_pick(3); count = nd_pick(4); at = 0; m = 1;
            for (i = 0; i < count; i++)
            {
                unsigned n = (shape + i) % 3 * 3;
                for (j = 0; j < n; j++) { line[i][j] = (char)nd_u8(); v_assume(line[i][j] != 0); }
                line[i][n] = 0; lines[i] = line[i];
            }
            fgetsSetData(lines, count); break; }
    case 1: fgetsRestore(); m = 0; break;
    default: { int size = 1 + (int)nd_pick(3) * 3, k; char* buf = v_sys_malloc((size_t)size + 2);
               char* r;
               buf[size] = 0x5A; buf[size + 1] = 0x5B;
               r = hook_fgets(buf, size, F);
               if (!m) { expect(1, (long)r, 0); v_assert(a1 == buf && a2 == size && a4 == F, "a call passed through keeps its arguments"); }
               else
               {
                   v_assert(real == 0, "a call reaches the C library exactly when it is not injected");
                   if (at >= count) { v_assert(r == NULL, "the end of the data is reported once, then it starts over"); v_cover("end of the data"); at = 0; }
                   else
                   {
                       uint32_t bad = 0;
                       v_assert(r == buf, "the next line is returned in the buffer of the caller");
                       for (k = 0; k < size - 1 && line[at][k]; k++) bad |= buf[k] != line[at][k];
                       v_assert(!bad && buf[k] == 0, "a line is given as it is, cut to the buffer and terminated");
                       if (k == size - 1 && line[at][k]) v_cover("line cut");
                       at++;
                   }
               }
               v_assert(buf[size] == 0x5A && buf[size + 1] == 0x5B, "nothing is written beyond the size given");
               v_sys_free(buf); }
    }
}
#else
static unsigned nth; static int m;
static void step(void)
{
    switch (nd_pick(5))
    {
    case 0: nth = nd_pick(4); m = 1; MallocFailureInject_FailAllocation(nth); break;
    case 1: MallocFailureInject_Restore(); m = 0; break;
    case 2: hook_free(data); v_assert(real == 1 && a1 == data, "blocks are freed by the C library"); break;
    default: { size_t n = nd_u64(); int p = !(m && nth == 1), re = (int)nd_pick(2);
               if (m && nth) nth--;
               expect(p, re ? (long)hook_realloc(data, n) : (long)hook_malloc(n), 0);
               if (!p) v_cover("the nth allocation fails");
               v_assert(!p || (a2 == (long)n && (!re || a1 == data)), "a call passed through keeps its arguments"); }
    }
}
#endif
#if KIND == 6
/* many calls and long lines */
static char big[5001]; static const char* many[300]; static char buf[5002];
static int failing;                                      /* the family asked for */
static long call(void)
{
    real = 0;
    if (failing == 0) { answer = (int)answer; return hook_fseek(F, 1, 2); }
    if (failing == 1) return (long)hook_fread(data, 1, 2, F);
    return failing == 2 ? (long)hook_malloc(3) : (long)hook_realloc(data, 3);
}
void vf_main(void)
{
    static const unsigned counts[6] = { 127, 128, 255, 256, 32768, 65536 };
    unsigned i; uint32_t bad = 0;
    answer = (long)nd_u64();
    if (nd_pick(2))
    {
        long ret = failing = (int)nd_pick(4), got; unsigned n = counts[nd_pick(6)];
        if (failing == 0) { ret = (int)nd_u32(); fseekSetReturn((int)ret); fseekSetCallsBeforeFailure((int)n); }
        else if (failing == 1) { ret = (long)nd_u64(); freadFail((size_t)ret); freadToFail((int)n + 1); }
        else { ret = 0; MallocFailureInject_FailAllocation(n + 1); }
        for (i = 0; i < n; i++) { got = call(); bad |= real != 1; }
        v_assert(!bad, "a call reaches the C library exactly when it is not injected");
        v_assert(got == answer, "a call passed through returns what the C library returns");
        got = call();
        v_assert(real == 0 && got == ret, "the call asked for fails");
        got = call();
        v_assert(failing == 0 ? real == 0 && got == ret : real == 1 && got == answer, "after it calls fail or reach the C library as asked for");
        v_cover("many calls");
    }
    else
    {
        unsigned n = counts[nd_pick(3)] + 5, k = 0, at, size; char c = (char)nd_u8();
        v_assume(c != 0 && c != 'x');
        memset(big, 'x', 5000);
        many[0] = big; at = nd_pick(4) * 1500; if (at == 4500) at = 4999; big[at] = c;
        for (i = 1; i < 300; i++) many[i] = i & 1 ? "odd" : "even";
        fgetsSetData(many, n);
        size = nd_pick(2) ? 5001 : 1024;
        buf[5001] = 0x5A; memset(buf, 0x5B, 5001);
        v_assert(hook_fgets(buf, (int)size, F) == buf, "the next line is returned in the buffer of the caller");
        for (i = 0; i < 5000 && i < size - 1; i++) bad |= buf[i] != big[i];
        v_assert(!bad && buf[size - 1] == 0 && (size == 5001 || buf[size] == 0x5B) && buf[5001] == 0x5A, "a line is given as it is, cut to the buffer and terminated");
        for (i = 1; i < n; i++) { bad |= hook_fgets(buf, 10, F) != buf; bad |= buf[0] != (i & 1 ? 'o' : 'e'); }
        v_assert(!bad, "the lines are given in order");
        v_assert(hook_fgets(buf, 10, F) == NULL, "the end of the data is reported after the last line");
        v_cover("many lines");
    }
}
#else
void vf_main(void)
{
    unsigned i;
    for (i = 0; i < STEPS; i++)
    {
        real = 0;
        answer = (long)nd_u64();
        step();
    }
    v_observe("last", (uint64_t)answer & 1);
}
#endif

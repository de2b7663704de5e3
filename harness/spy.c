/* C29: the printf spy of the test library: outputs of one stream, texts and buffer sizes free. */
#include "env.h"
#include "ref.h"
#include <printfSpy.h>
#undef printf
#undef fprintf
#ifndef CALLS
#define CALLS 5
#endif
#ifndef MAXLEN
#define MAXLEN 3
#endif
int real_printf(const char* f, ...) { return -77; }
int real_fprintf(FILE* s, const char* f, ...) { return -78; }
static char text[CALLS][MAXLEN + 1]; static unsigned len[CALLS];
static unsigned stream, size;
static const char* nth(unsigned n)
{
    switch (nd_pick(n <= 2 ? 2 : 1))
    {
    case 1: return stream == 2 ? (n == 1 ? printfSpy_GetLastErrorOutput() : printfSpy_GetPreviousErrorOutput()) : (n == 1 ? printfSpy_GetLastOutput() : printfSpy_GetPreviousOutput());
    default: return stream == 2 ? printfSpy_GetNthErrorOutput(n) : printfSpy_GetNthOutput(n);
    }
}
static void session(unsigned calls, int full)
{
    unsigned i, j, n;
    size = full ? nd_pick(MAXLEN + 2) : 2;
    stream = nd_pick(3);                    /* 0: printf, 1: fprintf(stdout), 2: fprintf(stderr) */
    printfSpy_Hook(size);
    v_assert(printfSpy_GetCallCount() == 0, "hooking starts the count at zero");
    for (i = 0; i < calls; i++)
    {
        int r;
        n = len[i] = full && (i + 1 == calls || i == 0) ? nd_pick(MAXLEN + 1) : (i & 1) + 1;
        for (j = 0; j < n; j++) { text[i][j] = (char)nd_u8(); v_assume(text[i][j] != 0); }
        text[i][n] = 0;
        r = stream == 0 ? hook_printf("%s", text[i]) : hook_fprintf(stream == 1 ? stdout : stderr, "%s", text[i]);
        v_assert(r == (int)n, "the spy returns the length of the whole text");
        v_assert(printfSpy_GetCallCount() == i + 1, "every output is counted");
    }
    n = 1 + nd_pick(4);
    {
        const char* p = nth(n); uint32_t bad = 0;
        if (n > calls) { v_assert(p == NULL, "there is no text where nothing was written"); v_cover("nothing written yet"); }
        else
        {
            const char* t = text[calls - n]; unsigned l = len[calls - n];
            if (l > size) { l = size; v_cover("text cut"); }
            v_assert(p != NULL, "the last four outputs are kept");
            for (j = 0; j < l; j++) bad |= p[j] != t[j];
            v_assert(!bad && p[l] == 0, "an output is kept as written, cut to the size asked for");
            v_cover("text found");
        }
        v_assert((stream == 2 ? printfSpy_GetLastOutput() : printfSpy_GetLastErrorOutput()) == NULL, "nothing is seen on the other stream");
    }
}
#ifdef MANY
/* many outputs, long ones */
static char longText[70001];
void vf_main(void)
{
    static const unsigned counts[4] = { 128, 257, 65535, 65539 }, sizes[4] = { 255, 256, 65536, 70000 };
    static char one[2]; unsigned i, n = counts[nd_pick(4)], bad = 0; const char* p; char c = (char)nd_u8();
    v_assume(c != 0 && c != 'x');
    if (nd_pick(2))
    {
        printfSpy_Hook(1);
        for (i = 0; i < n; i++)
        {
            one[0] = (char)('A' + i % 8);
            if (i + 1 == n) one[0] = c;
            bad |= hook_printf("%s", one) != 1;
            bad |= printfSpy_GetCallCount() != i + 1;
        }
        v_assert(!bad, "every output is counted");
        for (i = 1; i <= 4; i++)
        {
            p = printfSpy_GetNthOutput(i);
            v_assert(p && p[0] == (i == 1 ? c : (char)('A' + (n - i) % 8)) && p[1] == 0, "the last four outputs are kept");
        }
        v_cover("many outputs");
    }
    else
    {
        unsigned size = sizes[nd_pick(4)], at = nd_pick(3);
        memset(longText, 'x', 70000);
        at = at == 0 ? 0 : at == 1 ? size - 1 : 69999; longText[at] = c;
        printfSpy_Hook(size);
        v_assert(hook_printf("%s", longText) == 70000, "the spy returns the length of the whole text");
        p = printfSpy_GetLastOutput();
        v_assert(p != NULL, "the last four outputs are kept");
        for (i = 0; i < size; i++) bad |= p[i] != longText[i];
        v_assert(!bad && p[size] == 0, "an output is kept as written, cut to the size asked for");
        v_cover("long output");
    }
    printfSpy_Unhook();
    v_assert(env_live == 0, "unhooking frees every buffer");
}
#else
void vf_main(void)
{
    unsigned second = nd_pick(2);
    session(second ? nd_pick(3) : nd_pick(CALLS + 1), !second);
    if (second)
    {
        /* hooked again, with or without unhooking first */
        if (nd_pick(2)) printfSpy_Unhook();
        session(2, 0);
        v_cover("hooked again");
    }
    printfSpy_Unhook();
    v_assert(hook_printf == real_printf && hook_fprintf == real_fprintf, "unhooking gives printf and fprintf back");
    v_assert(hook_printf("x") == -77 && hook_fprintf(stdout, "x") == -78, "output reaches the C library again");
    v_assert(printfSpy_GetLastOutput() == NULL && printfSpy_GetLastErrorOutput() == NULL, "unhooking forgets the texts");
    v_assert(env_live == 0, "unhooking frees every buffer");
    v_observe("size", size);
}
#endif

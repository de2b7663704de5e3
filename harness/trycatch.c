/* C18: nested __try/__catch blocks; what each level does is chosen on the way, exception codes and message texts are free. */
#include "env.h"
#include "ref.h"
#ifndef DEPTH
#define DEPTH 3
#endif
#define NONE (-2)
#ifndef LONG
#define LONG 0
#endif
static int m_code, m_to = NONE;        /* model: pending code, level whose handler must run next (-1: the last one, NONE: none) */
static unsigned m_len;               /* model: length of the message */
static int m_known;                  /* model: the pending exception came with a message */
static char m_c;                     /* model: its characters */
static char text[1300];
static int nd_code(void) { int c = (int)nd_u32(); v_assume(c > 0); return c; }
static void setup_text(void)
{
    static const unsigned lens[] = { 1, 3, 1022, 1023, 1024, 1200 };
    unsigned n = LONG ? lens[nd_pick(6)] : 2;
    m_c = (char)nd_u8(); v_assume(m_c != 0);
    memset(text, m_c, n); text[n] = 0;
    m_len = n > sizeof(g_exceptionMessage) - 1 ? sizeof(g_exceptionMessage) - 1 : n;
}
static void check_message(void)
{
    const char* p = getExceptionMessage();
    unsigned i; uint32_t bad = 0;
    if (!m_known) return;
    for (i = 0; i < m_len; i += m_len > 8 ? m_len - 1 : 1) bad |= p[i] != m_c;
    v_assert(!bad, "the handler sees the message given with the exception");
    v_assert(p[m_len] == 0, "the message ends where it should");
}
/* throws to level TO */
static void throwAt(int to, int with_text)
{
    int code = nd_code();
    m_to = to;
    m_code = code > m_code ? code : m_code;
    m_known = with_text;
    if (with_text)
    {
        setup_text();
        v_cover("thrown with a message");
        __throw_msg(code, "%s", text);
    }
    __throw(code);
    v_assert(0, "statements after a throw do not run");
}
static void level(int d);
/* a block of its own, whatever happened before */
static void probe(void)
{
    __try
    {
        v_assert(getExceptionCode() == 0, "a new block starts without an exception");
        v_assert(getExceptionMessage()[0] == 0, "a new block starts without a message");
    }
    __catch
    {
        v_assert(0, "the handler runs for an exception only");
    }
}
static int body(int d)
{
    v_assert(getExceptionCode() == 0, "a new block starts without an exception");
    v_assert(getExceptionMessage()[0] == 0, "a new block starts without a message");
    m_code = 0;
    switch (nd_pick(4))
    {
    case 0: break;
    case 1: throwAt(d, 0); break;
    case 2: throwAt(d, 1); break;
    default:
        if (d + 1 < DEPTH)
        {
            level(d + 1);
            v_assert(m_to == NONE, "an exception does not get lost between two levels");
            probe();
            if (nd_pick(2)) throwAt(d, 0);
        }
    }
    return 1;
}
static int clear_and_return(int v) { __nothrow_and_return(v); }
static void level(int d)
{
    ExceptionHandler* const outer = g_pExceptionHandlers;
    int volatile done = 0, ran = 0;
    __try
    {
        v_assert(g_pExceptionHandlers && g_pExceptionHandlers != outer && g_pExceptionHandlers->pPrevious == outer, "a block registers its own handler");
        done = body(d);
        v_assert(m_to == NONE, "nothing runs after a throw");
    }
    __catch
    {
        ran = 1;
        v_cover("handler runs");
        v_assert(m_to == d, "the innermost handler around gets the exception");
        v_assert(!done, "the handler runs for an exception only");
        v_assert(getExceptionCode() == m_code, "the handler sees the code thrown (of two pending, the larger)");
        v_assert(g_pExceptionHandlers == outer, "a handler runs with the handlers around it in force");
        check_message();
        m_to = NONE;
        switch (nd_pick(7))
        {
        case 0: clearExceptionCode(); m_code = 0; break;
        case 1: m_to = d - 1; __rethrow; break;
        case 2: throwAt(d - 1, 0); break;
        case 3: throwAt(d - 1, 1); break;
        case 4: m_code = 0; v_cover("left by __nothrow"); __nothrow;
        case 5: m_code = 0; v_assert(clear_and_return(7) == 7, "__nothrow_and_return returns its value"); break;
        default:
            /* a block of its own inside the handler */
            m_code = 0;
            __try_and_catch(throwAt(9, 0));
            v_assert(getExceptionMessage()[0] == 0, "an exception thrown without a message has none in a new block");
            v_assert(m_to == 9 && getExceptionCode() == m_code, "a handler can try again");
            v_assert(g_pExceptionHandlers == outer, "the handlers are back after a block inside a handler");
            m_to = NONE; m_code = 0;
            clearExceptionCode();
        }
        v_assert(m_to == NONE, "nothing runs after a throw from a handler");
    }
    v_assert(m_to == NONE, "no exception passes a block without its handler");
    v_assert(ran || done, "a block ends by itself or through its handler");
    v_assert(g_pExceptionHandlers == outer, "the handlers around are back after a block");
    v_assert(getExceptionCode() == 0, "nothing is pending after a block that ended well");
    if (!ran) v_cover("block ends without an exception");
}
#ifdef MANY
/* a deep nest, whose exception is passed on up to a level, then many blocks one after the other */
static int next, stop, code; static char c;
static void deep(int d, int n)
{
    ExceptionHandler* const outer = g_pExceptionHandlers;
    __try
    {
        if (d + 1 < n) deep(d + 1, n);
        else { next = d; __throw_msg(code, "%s", text); }
        v_assert(d < stop, "statements after a throw do not run");
    }
    __catch
    {
        v_assert(next == d && d >= stop, "the innermost handler around gets the exception");
        v_assert(getExceptionCode() == code && getExceptionMessage()[0] == c && getExceptionMessage()[1] == 'x', "the handler sees the code thrown and its message");
        v_assert(g_pExceptionHandlers == outer, "a handler runs with the handlers around it in force");
        next--;
        if (d > stop) __rethrow;
        clearExceptionCode();
    }
    v_assert(g_pExceptionHandlers == outer, "the handlers around are back after a block");
    v_assert(getExceptionCode() == 0, "nothing is pending after a block that ended well");
}
void vf_main(void)
{
    static const int depths[3] = { 9, 65, 300 };
    int volatile i = 0; int volatile caught = 0; int n = depths[nd_pick(3)];
    code = nd_code(); c = (char)nd_u8(); v_assume(c != 0 && c != '%');
    text[0] = c; text[1] = 'x'; text[2] = 0;
    stop = nd_pick(2) ? 0 : n / 2;
    deep(0, n);
    v_assert(next == stop - 1, "every handler on the way runs");
    for (i = 0; i < 1000; i++)
    {
        __try
        {
            if (i & 1) __throw(code);
        }
        __catch
        {
            caught++;
            v_assert(getExceptionCode() == code && getExceptionMessage()[0] == 0, "the handler sees the code thrown");
            clearExceptionCode();
        }
    }
    v_assert(caught == 500, "each exception is handled once");
    v_assert(g_pExceptionHandlers == NULL, "no handler is left at the end");
}
#else
void vf_main(void)
{
    int volatile got = 0;
    __try
        level(0);
    __catch
    {
        got = 1;
        v_assert(m_to == -1, "exception of the outermost level reaches the last handler");
        v_assert(getExceptionCode() == m_code, "the last handler sees the code thrown");
        check_message();
        v_cover("exception leaves every level");
        clearExceptionCode();
    }
    probe();
    v_assert(g_pExceptionHandlers == NULL, "no handler is left at the end");
    v_observe("code", got);
}
#endif

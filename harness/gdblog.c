/* GDB logs: memory (C15).  LINES lines of the x/4xw form.  Each continues the block before it or starts a new one, has 1 to 4 values, may carry
   symbols, a fifth value, an error text, other lines around it, and any line end.  ADDR 1: one line at any address (digits of class CLS). */
#include "ref.h"
#include <GdbLogParser.h>
#ifndef LINES
#define LINES 2
#endif
#ifndef ADDR
#define ADDR 0
#endif
#ifndef TOP
#define TOP 0
#endif
#ifndef CLS
#define CLS 0             /* digits of addresses and values: 0: 0-9, 1: a-f, 2: A-F, 3: one free digit */
#endif
#ifndef DECOR
#define DECOR 1
#endif
static char text[1200];
static uint32_t n;
static RegisterContext ctx, before;
static void put(const char* s) { while (*s) text[n++] = *s++; }
static uint32_t hexdigit(uint32_t* pValue)
{
    uint32_t d = nd_u8();
    if (CLS == 0) { v_assume(d < 10); *pValue = d; return d + '0'; }
    v_assume(d < 6); *pValue = d + 10;
    return d + (CLS == 1 ? 'a' : 'A');
}
static uint32_t number(void)
{
    uint32_t v = 0, i, d;
    put("0x");
    for (i = 0; i < 8; i++)
    {
        if (CLS == 3) { d = (i * 5 + n) & 15; text[n++] = "0123456789abcdef"[d]; }
        else text[n++] = (char)hexdigit(&d);
        v = (v << 4) | d;
    }
    return v;
}
static void hex8(uint32_t v) { int i; put("0x"); for (i = 28; i >= 0; i -= 4) text[n++] = "0123456789ABCDEF"[(v >> i) & 15]; }
static void eol(uint32_t k) { put(k == 0 ? "\n" : k == 1 ? "\r\n" : " \n"); }
void vf_main(void)
{
    uint32_t i, j, next = 0, words[LINES * 4], at[LINES * 4], nw = 0, block = 0, owner, off, w, addr, r = 0, bad = 0; int code;
#if TOP   /* memory up to the last address, and from the first */
    static const uint32_t blocks[4] = { 0xFFFFFFF0, 0, 0x20000000, 0x10 };
#else
    static const uint32_t blocks[4] = { 0x20000000, 0x10007FF0, 0xFFFF0000, 0xABCDEF00 };
#endif
    IMemory* m = MemorySim_Init();
    uint32_t decor = DECOR ? nd_pick(6) : 0;
    for (i = 0; i < sizeof(ctx) / 4; i++) ((uint32_t*)&ctx)[i] = nd_u32();
    before = ctx;
    if (decor == 1) put("(gdb) x/8xw 0x20000000\nr0 is not here\n");
    for (i = 0; i < LINES; i++)
    {
        uint32_t count = LINES > 2 ? nd_pick(2) * 3 + 1 : nd_pick(4) + 1, base;
#if ADDR
        base = number();
        v_assume(base <= 0xFFFFFFE0u);
        ref_region(base, 4 * count);
#else
        if (i == 0 || next == 0 || nd_pick(2)) { base = blocks[block++ & 3]; ref_region(base, 4 * count); v_cover("new block"); }
        else { base = next; ref[ref_n - 1].size += 4 * count; }
        v_assume((uint64_t)base + 4 * count <= 0x100000000ull);
        hex8(base);
#endif
        next = base + 4 * count;
        if (decor == 2) put(" <sym+12>");
        put(":\t");
        for (j = 0; j < count; j++)
        {
            at[nw] = base + 4 * j;
            words[nw++] = number();
            if (decor == 3) put(" <a b<c>>");
            if (decor == 4) put("<x>");
            if (j + 1 < count) put(j & 1 ? " " : "\t");
        }
        if (decor == 5 && count < 4) put("\tCannot access memory at address 0x0");
        if (decor == 5 && count == 4) put("\t0x00000005");
        if (decor == 1 || i + 1 < LINES || nd_pick(2)) eol(decor == 0 ? nd_pick(3) : 0);
        if (decor == 1 && i == 0) put("abc\n\n0x1234 is no line\n");
    }
    if (CLS == 3)
    {   /* any one digit of any value, in any case */
        uint32_t pos = nd_pick(8), which = nd_pick(nw), c = nd_u8(), seen = 0, k, v;
        for (k = 0; k + 1 < n; k++)
            if (text[k] == '0' && text[k + 1] == 'x' && k && text[k - 1] != '\n' && seen++ == which) break;
        v_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
        v = ref_sel(c <= '9', c - '0', ref_sel(c <= 'F', c - 'A' + 10, c - 'a' + 10)) & 15;
        text[k + 2 + pos] = (char)c;
        words[which] = (words[which] & ~(15u << (28 - 4 * pos))) | (v << (28 - 4 * pos));
    }
    env_files[0].name = "log"; env_files[0].data = (const uint8_t*)text; env_files[0].size = n;
    CATCH(code, GdbLogParse(m, &ctx, "log"));
    v_assert(code == 0, "a GDB log is accepted");
    v_assert(env_openFiles == 0, "the log file is closed");
    w = nd_width(); addr = nd_access(w, &owner, &off);
    code = try_read(m, addr, w, &r);
    v_assert((code == 0) == (owner != REF_NONE), "exactly the logged memory is mapped, consecutive lines as one block");
    if (code == 0)
    {
        for (j = 0; j < w; j++)
        {
            uint32_t a = addr + j, v = 0;
            for (i = 0; i < nw; i++) v = ref_sel(at[i] == (a & ~3u), words[i], v);
            if (ADDR) for (i = 0; i < nw; i++) v = ref_sel((a - at[i]) < 4, words[i] >> (8 * ((a - at[i]) & 3)), v);
            else v >>= 8 * (a & 3);
            bad |= ((r >> (8 * j)) ^ v) & 0xFF;
        }
        v_assert(bad == 0, "memory holds the logged words, little endian");
        v_assert(try_write(m, addr, w, 0) == 0, "logged memory is writable");
        v_cover("logged memory read");
    }
    bad = (ctx.R[MSP] ^ 0xBAADBAAD) | (ctx.R[PSP] ^ 0xBAADBAAD);
    before.R[MSP] = ctx.R[MSP]; before.R[PSP] = ctx.R[PSP];
    for (i = 0; i < sizeof(ctx) / 4; i++) bad |= ((uint32_t*)&ctx)[i] ^ ((uint32_t*)&before)[i];
    v_assert(bad == 0, "memory lines change no register");
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

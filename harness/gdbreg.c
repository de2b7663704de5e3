/* GDB logs: registers (C16).  NL "info all-registers" lines for any registers with any value (hexadecimal digits of class CLS, 3: one free digit;
   4: decimal); the other registers keep their values, MSP and PSP are marked unknown unless logged. */
#include "ref.h"
#include <GdbLogParser.h>
#ifndef NL
#define NL 1
#endif
#ifndef CLS
#define CLS 0
#endif
#ifndef NEAR
#define NEAR 0            /* 1: one character of the name and its padding is any other */
#endif
static const char* const names[52] = { "r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp",
    "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17", "s18", "s19", "s20", "s21", "s22", "s23",
    "s24", "s25", "s26", "s27", "s28", "s29", "s30", "s31", "fpscr" };
static char text[512];
static uint32_t n;
static RegisterContext ctx, want;
static void put(const char* s) { while (*s) text[n++] = *s++; }
static uint32_t number(void)
{
    uint32_t v = 0, i, free = CLS == 3 ? nd_pick(8) : 9;
    if (CLS == 4)
    {
        uint32_t len = nd_pick(5) + 1;
        for (i = 0; i < len; i++) { uint32_t d = nd_u8(); v_assume(d < 10); if (i == 0 && len > 1) v_assume(d != 0); text[n++] = (char)('0' + d); v = v * 10 + d; }
        return v;
    }
    put("0x");
    for (i = 0; i < 8; i++)
    {
        uint32_t d, c;
        if (CLS == 3 && i != free) { d = (i * 7 + 3) & 15; c = "0123456789abcdef"[d]; }
        else if (CLS == 3)
        {
            c = nd_u8();
            v_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
            d = ref_sel(c <= '9', c - '0', ref_sel(c <= 'F', c - 'A' + 10, c - 'a' + 10)) & 15;
        }
        else { d = nd_u8(); v_assume(d < (CLS == 0 ? 10 : 6)); c = d + (CLS == 0 ? '0' : CLS == 1 ? 'a' : 'A'); if (CLS) d += 10; }
        text[n++] = (char)c;
        v = (v << 4) | d;
    }
    return v;
}
void vf_main(void)
{
    uint32_t i, v, start, bad = 0, match[52]; int code;
    (void)match;
    IMemory* m = MemorySim_Init();
    for (i = 0; i < sizeof(ctx) / 4; i++) ((uint32_t*)&ctx)[i] = nd_u32();
    want = ctx;
    want.R[MSP] = want.R[PSP] = 0xBAADBAAD;
    put("(gdb) info all-registers\n");
    for (i = 0; i < NL; i++)
    {
        uint32_t k = nd_pick(52);
        start = n;
        put(names[k]);
        while (n < start + 15) text[n++] = ' ';
#if NEAR
        {
            uint32_t c = nd_u8(), j, any = 0;
            v_assume((c != 0) & (c != '\n'));
            text[start + nd_pick(15)] = (char)c;
            for (j = 0; j < 52; j++)
            {
                uint32_t x, diff = 0, len = strlen(names[j]);
                for (x = 0; x < 15; x++) diff |= (uint8_t)text[start + x] ^ (uint8_t)(x < len ? names[j][x] : ' ');
                match[j] = diff == 0; any |= match[j];
                if ((k >= 19 && k < 51) != (j >= 19 && j < 51)) v_assume(!match[j]);
            }
            if (k >= 19 && k < 51) { put("1.5e-10\t(raw "); v = number(); put(")\n"); } else { v = number(); put("\t<main+4>\n"); }
            for (j = 0; j < 52; j++)
                if (j >= 19) { want.FPR[j - 19] = ref_sel(match[j], v, want.FPR[j - 19]); if (j < 51) want.flags = ref_sel(match[j], want.flags | 1, want.flags); }
                else want.R[j] = ref_sel(match[j], v, want.R[j]);
            if (v_concrete(any)) v_cover("a register all the same"); else v_cover("no register");
            continue;
        }
#endif
        if (k >= 19 && k < 51)
        {
            put("1.5e-10\t(raw "); v = number(); put(")");
            want.FPR[k - 19] = v; want.flags |= 1;
            v_cover("floating point register");
        }
        else
        {
            v = number(); put("\t<main+4>");
            if (k == 51) want.FPR[32] = v; else want.R[k] = v;
            v_cover("integer register");
        }
        put(nd_pick(2) ? "\r\n" : "\n");
    }
    put("d0             0\t(raw 0x0000000000000000)\n");
    env_files[0].name = "log"; env_files[0].data = (const uint8_t*)text; env_files[0].size = n;
    CATCH(code, GdbLogParse(m, &ctx, "log"));
    v_assert(code == 0, "a GDB log is accepted");
    v_assert(env_openFiles == 0, "the log file is closed");
    for (i = 0; i < 19; i++) bad |= ctx.R[i] ^ want.R[i];
    v_assert(bad == 0, "integer registers hold the logged values, the others are untouched, unlogged MSP and PSP are marked unknown");
    for (i = 0; i < 33; i++) bad |= ctx.FPR[i] ^ want.FPR[i];
    v_assert(bad == 0, "floating point registers hold the logged values, the others are untouched");
    v_assert(ctx.flags == want.flags, "the floating point flag is set exactly when a floating point register is logged");
    v_assert(ctx.exceptionPSR == want.exceptionPSR, "the exception PSR is untouched");
    v_assert(env_allocs == 0, "registers map no memory");
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

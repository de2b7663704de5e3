/* C21: register packets. */
#include "mri.h"
#include "ref.h"
static Buffer buf;
static uint32_t R[TOTAL_REG_COUNT], FPR[TOTAL_FPREG_COUNT], nr[TOTAL_REG_COUNT + TOTAL_FPREG_COUNT];
static RegisterContext ctx;
static uint32_t word(unsigned at) { return buf.byte[at] | (uint32_t)buf.byte[at + 1] << 8 | (uint32_t)buf.byte[at + 2] << 16 | (uint32_t)buf.byte[at + 3] << 24; }
static void check_context(uint32_t flags, uint32_t psr)
{
    uint32_t bad = 0; unsigned i;
    for (i = 0; i < TOTAL_REG_COUNT; i++) bad |= ctx.R[i] ^ R[i];
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) bad |= ctx.FPR[i] ^ FPR[i];
    v_assert(!bad, "the register values are what they should be");
    v_assert(ctx.flags == flags && ctx.exceptionPSR == psr, "the rest of the context is untouched");
}
void vf_main(void)
{
    uint32_t flags, psr, bad = 0; unsigned i, n, step;
    IMemory* m = MemorySim_Init();
    for (i = 0; i < TOTAL_REG_COUNT; i++) ctx.R[i] = R[i] = nd_u32();
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) ctx.FPR[i] = FPR[i] = nd_u32();
    ctx.flags = flags = nd_u32(); ctx.exceptionPSR = psr = nd_u32();
    mriPlatform_Init(&ctx, m);
    n = TOTAL_REG_COUNT + ((flags & 1) ? TOTAL_FPREG_COUNT : 0);
    if (flags & 1) v_cover("with floating point registers"); else v_cover("without floating point registers");
    for (step = 0; step < 2; step++)
    {
        /* 'g' */
        buf.n = 0;
        Platform_CopyContextToBuffer(&buf);
        v_assert(buf.n == 4 * n, "the packet holds every register GDB was told about, and no other");
        for (i = 0; i < n; i++) bad |= word(4 * i) ^ (i < TOTAL_REG_COUNT ? R[i] : FPR[i - TOTAL_REG_COUNT]);
        for (i = 0; i < 4 * n; i++) bad |= buf.ch[i];
        v_assert(!bad, "every register is sent in its place, little endian");
        check_context(flags, psr);
        /* T response */
        buf.n = 0;
        Platform_WriteTResponseRegistersToBuffer(&buf);
        v_assert(buf.n == 4 * 7, "the stop reply holds r12, sp, lr and pc");
        for (i = 0; i < 4; i++)
        {
            unsigned at = i * 7;
            bad |= buf.byte[at] ^ (12 + i); bad |= buf.ch[at]; bad |= buf.byte[at + 1] ^ ':'; bad |= !buf.ch[at + 1];
            bad |= word(at + 2) ^ R[12 + i]; bad |= buf.ch[at + 2] | buf.ch[at + 3] | buf.ch[at + 4] | buf.ch[at + 5];
            bad |= buf.byte[at + 6] ^ ';'; bad |= !buf.ch[at + 6];
        }
        v_assert(!bad, "the stop reply shows number and value of each register");
        check_context(flags, psr);
        if (step) break;
        /* 'G' */
        for (i = 0; i < n; i++)
        {
            uint32_t v = nr[i] = nd_u32();
            buf.byte[4 * i] = (uint8_t)v; buf.byte[4 * i + 1] = (uint8_t)(v >> 8); buf.byte[4 * i + 2] = (uint8_t)(v >> 16); buf.byte[4 * i + 3] = (uint8_t)(v >> 24);
            if (i < TOTAL_REG_COUNT) R[i] = v; else FPR[i - TOTAL_REG_COUNT] = v;
        }
        buf.n = 0;
        Platform_CopyContextFromBuffer(&buf);
        v_assert(buf.n == 4 * n, "exactly the registers of the packet are taken");
        check_context(flags, psr);
    }
    v_observe("pc", ctx.R[PC]);
    MemorySim_Uninit(m);
    v_assert(env_live == 0 && g_pExceptionHandlers == NULL, "nothing is left behind");
}

/* C23: signal and fault cause text. SECT: 0 any exception number (memory status 0), 3 hard fault, 4 MPU, 5 bus, 6 usage fault */
#include "mri.h"
#include "ref.h"
#include <signal.h>
#ifndef SECT
#define SECT 0
#endif
static char x_text[2048]; static unsigned x_len, x_values; static uint32_t x_value[16];
static void S(const char* p) { while (*p) x_text[x_len++] = *p++; x_text[x_len] = 0; }
static void X(uint32_t v) { x_value[x_values++] = v; S("\x01"); }
static RegisterContext ctx;
static uint32_t cfsr, hfsr, mmfar, bfar, have;       /* have: 1 CFSR, 2 HFSR, 4 MMFAR, 8 BFAR */
static void mem_fault(void)
{
    uint32_t v = cfsr & 0xFF;
    if (!(have & 1) || !v) return;
    S("\n**MPU Fault**\n  Status Register: "); X(v);
    if ((v & 0x80) && (have & 4)) { S("\n    Fault Address: "); X(mmfar); v_cover("fault address shown"); }
    if (v & 0x20) S("\n    FP Lazy Preservation");
    if (v & 0x10) S("\n    Stacking Error");
    if (v & 0x08) S("\n    Unstacking Error");
    if (v & 0x02) S("\n    Data Access");
    if (v & 0x01) S("\n    Instruction Fetch");
}
static void bus_fault(void)
{
    uint32_t v = (cfsr >> 8) & 0xFF;
    if (!(have & 1) || !v) return;
    S("\n**Bus Fault**\n  Status Register: "); X(v);
    if ((v & 0x80) && (have & 8)) { S("\n    Fault Address: "); X(bfar); v_cover("fault address shown"); }
    if (v & 0x20) S("\n    FP Lazy Preservation");
    if (v & 0x10) S("\n    Stacking Error");
    if (v & 0x08) S("\n    Unstacking Error");
    if (v & 0x04) S("\n    Imprecise Data Access");
    if (v & 0x02) S("\n    Precise Data Access");
    if (v & 0x01) S("\n    Instruction Prefetch");
}
static void usage_fault(void)
{
    uint32_t v = cfsr >> 16;
    if (!(have & 1) || !v) return;
    S("\n**Usage Fault**\n  Status Register: "); X(v);
    if (v & 0x200) S("\n    Divide by Zero");
    if (v & 0x100) S("\n    Unaligned Access");
    if (v & 0x08) S("\n    Coprocessor Access");
    if (v & 0x04) S("\n    Invalid Exception Return State");
    if (v & 0x02) S("\n    Invalid State");
    if (v & 0x01) S("\n    Undefined Instruction");
}
static void hard_fault(void)
{
    S("\n**Hard Fault**");
    if (!(have & 2)) return;
    S("\n  Status Register: "); X(hfsr);
    if (hfsr & 0x80000000u) S("\n    Debug Event");
    if (hfsr & 2) S("\n    Vector Table Read");
    if (hfsr & 0x40000000u) { S("\n    Forced"); v_cover("forced"); mem_fault(); bus_fault(); usage_fault(); }
}
static void put(IMemory* m, uint32_t bit, uint32_t addr, uint32_t v)
{
    if (!(have & bit)) return;
    v_assume(try_create(m, addr, 4) == 0);
    v_assume(try_write(m, addr, 4, v) == 0);
}
/* a byte with no, one or (free) any bits */
static uint32_t bits(unsigned n)
{
    uint32_t k = nd_pick(n + 2);
    if (k == n + 1) return 0;
    if (k == n) return nd_u8() & 0x40;      /* a reserved bit */
    return 1u << k;
}
void vf_main(void)
{
    uint32_t psr = nd_u32(), e; unsigned i; int want; uint32_t bad = 0;
    IMemory* m = MemorySim_Init();
#if SECT
    psr = (psr & ~0x1FFu) | SECT;
    have = nd_pick(16);
#if SECT == 3
    cfsr = bits(8) | bits(8) << 8 | (nd_pick(2) ? bits(10) << 16 : 0);
#else
    cfsr = nd_u32();
#endif
    hfsr = nd_u32();
    mmfar = nd_u32(); bfar = nd_u32();
#endif
    put(m, 1, 0xE000ED28, cfsr); put(m, 2, 0xE000ED2C, hfsr); put(m, 4, 0xE000ED34, mmfar); put(m, 8, 0xE000ED38, bfar);
    ctx.exceptionPSR = psr;
    for (i = 0; i < TOTAL_REG_COUNT; i++) ctx.R[i] = nd_u32();
    mriPlatform_Init(&ctx, m);
    e = psr & 0x1FF;
    want = e == 2 ? SIGINT : e == 3 || e == 4 ? SIGSEGV : e == 5 ? SIGBUS : e == 6 ? SIGILL : e == 12 ? SIGTRAP : SIGSTOP;
    v_assert(Platform_DetermineCauseOfException() == want, "the signal tells the exception of the dump");
    mri_reset();
    Platform_DisplayFaultCauseToGdbConsole();
    x_text[0] = 0;
    if (e == 3) hard_fault(); else if (e == 4) mem_fault(); else if (e == 5) bus_fault(); else if (e == 6) usage_fault();
    if (e >= 3 && e <= 6) { S("\n"); v_cover("fault explained"); }
    v_assert(con_len == x_len && 0 == strcmp(con_text, x_text), "the text names every cause set and no other");
    v_assert(con_values == x_values, "the text shows the status and address registers it should");
    for (i = 0; i < x_values; i++) bad |= con_value[i] ^ x_value[i];
    v_assert(!bad, "the status and address registers are shown with their values");
    v_assert(g_pExceptionHandlers == NULL, "no exception escapes");
    v_assert(ctx.exceptionPSR == psr, "the context is untouched");
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "nothing is left behind");
    v_observe("text", con_len);
}

/* C22: memory accesses of the debugger. */
#include "mri.h"
#include "ref.h"
#ifndef NREG
#define NREG 1
#endif
#ifdef MANY
#undef OPS
#define OPS 1
#endif
#ifndef OPS
#define OPS 2
#endif
static RegisterContext ctx;
static struct { uint32_t owner, off, val, w; } wr[OPS]; static unsigned wn;
static uint8_t byte_at(uint32_t owner, uint32_t off)
{
    uint32_t v = 0; unsigned i, j;
    for (i = 0; i < wn; i++) for (j = 0; j < wr[i].w; j++)
        v = ref_sel((wr[i].owner == owner) & (wr[i].off + j == off), (wr[i].val >> (8 * j)) & 0xFF, v);
    return (uint8_t)v;
}
void vf_main(void)
{
    IMemory* m = MemorySim_Init();
    unsigned i, faults = 0;
    mriPlatform_Init(&ctx, m);
    for (i = 0; i < NREG; i++)
    {
        uint32_t base = nd_u32(), size = nd_off();
        v_assume(size > 0 && (uint64_t)base + size <= 0x100000000ull);
        v_assume(try_create(m, base, size) == 0);
        ref_region(base, size);
    }
    if (nd_pick(2)) { v_assume(try_readonly(m, ref[0].base) == 0); { uint32_t o; ref_setro(ref_lookup(ref[0].base, 1, &o)); } }
    v_assert(!Platform_WasMemoryFaultEncountered(), "no fault before the first access");
#ifdef MANY
    {   /* many accesses that fail: the question is still answered with yes, once */
        static const uint32_t times[] = { 1, 2, 255, 256, 257, 512, 65535, 65536, 65537 };
        uint32_t n = times[nd_pick(MANY)], write = nd_pick(2), j, addr = nd_u32(), bad = 0;
        v_assume((uint64_t)addr + 4 <= ref[0].base || addr >= (uint64_t)ref[0].base + ref[0].size);
        for (j = 0; j < n; j++)
            if (write) Platform_MemWrite32((void*)(unsigned long)addr, j); else bad |= Platform_MemRead32((const void*)(unsigned long)addr);
        v_assert(!bad && g_pExceptionHandlers == NULL, "a read gives the memory of the dump, or 0 where there is none");
        v_assert(Platform_WasMemoryFaultEncountered(), "a fault is reported exactly when an access failed since the last question");
        v_assert(!Platform_WasMemoryFaultEncountered(), "a fault is reported once");
        v_cover("many faults");
    }
#endif
    for (i = 0; i < OPS; i++)
    {
        unsigned op = nd_pick(2);
        uint32_t w = nd_width(), owner, off, addr = nd_access(w, &owner, &off);
        const void* p = (const void*)(unsigned long)addr;
        int f = owner == REF_NONE;
        if (op == 0)
        {
            uint32_t v, want = 0; unsigned j;
            v = w == 1 ? Platform_MemRead8(p) : w == 2 ? Platform_MemRead16(p) : Platform_MemRead32(p);
            if (!f) for (j = 0; j < w; j++) want |= (uint32_t)byte_at(owner, off + j) << (8 * j);
            v_assert(v == want, "a read gives the memory of the dump, or 0 where there is none");
            v_cover("read");
        }
        else
        {
            uint32_t v = nd_u32();
            if (w == 1) Platform_MemWrite8((void*)p, (uint8_t)v); else if (w == 2) Platform_MemWrite16((void*)p, (uint16_t)v); else Platform_MemWrite32((void*)p, v);
            if (!f) f = (int)v_concrete(ref_ro(owner));
            if (!f) { wr[wn].owner = owner; wr[wn].off = off; wr[wn].val = v; wr[wn].w = w; wn++; v_cover("written"); }
        }
        v_assert(g_pExceptionHandlers == NULL, "no exception of an access escapes");
        if (f) { faults = 1; v_cover("fault"); }
        if (nd_pick(2))
        {
            int r = Platform_WasMemoryFaultEncountered();
            v_assert((r != 0) == (int)faults, "a fault is reported exactly when an access failed since the last question");
            faults = 0;
            v_assert(!Platform_WasMemoryFaultEncountered(), "a fault is reported once");
        }
    }
    mriPlatform_Init(&ctx, m);
    v_assert(!Platform_WasMemoryFaultEncountered(), "no fault after starting anew");
    {
        uint32_t w = 1, owner, off, addr = nd_access(w, &owner, &off), v = 0;
        int code = try_read(m, addr, 1, &v);
        v_assert((code != 0) == (owner == REF_NONE) && (code || v == byte_at(owner, off)), "the memory holds what was written and nothing else");
    }
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "nothing is left behind");
    v_observe("faults", faults);
}

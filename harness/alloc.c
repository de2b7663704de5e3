/* Allocation failure (C05): after a region of any place and size exists (optionally read-only), one operation of kind OP runs with
   any one of its allocations failing (or every one from there on).  The failure is an outOfMemoryException, the map behaves as
   before, the operation works when retried, nothing leaks. */
#include "ref.h"
#ifndef OP
#define OP 0
#endif
#ifndef MAXFAIL
#define MAXFAIL 2
#endif
static IMemory* m;
static uint32_t a, b, s, owner, off, wb, ws, wo;
static uint8_t img[8];
static int op(void)
{
    int code = 0;
    const char* volatile xml = 0;
#if OP == 0
    code = try_create(m, a, s);
#elif OP == 1
    code = try_alias(m, a, b, s);
#elif OP == 2
    code = try_readonly(m, b);
#elif OP == 3
    CATCH(code, xml = MemorySim_GetMemoryMapXML(m));
    v_assert((xml != 0) == (code == 0), "a memory map text is returned exactly on success");
#elif OP == 4
    CATCH(code, MemorySim_SetHardwareWatchpoint(m, b, 1, WATCHPOINT_READ));
#elif OP == 5
    CATCH(code, MemorySim_CreateRegionsFromFlashImage(m, img, sizeof(img)));
#else
    CATCH(code, MemorySim_SetHardwareBreakpoint(m, b, 2));
#endif
    return code;
}
static void op_ref(void)
{
#if OP == 0
    ref_region(a, s);
#elif OP == 1
    ref_alias(a, owner, off, s);
#elif OP == 2
    ref_setro(owner);
#elif OP == 5
    ref_region(0, sizeof(img)); ref[1].ro = 1;
    ref_region(0x20000000, 0x100);
#endif
}
/* the map answers as the reference says */
static void probe(int done)
{
    uint32_t o, x, w = nd_width(), addr = nd_access(w, &o, &x), r = 0; int code;
    code = try_read(m, addr, w, &r);
#if OP == 6
    if (done && code == hardwareBreakpointException) { v_assert((addr == b) & (w == 2), "only the breakpoint address breaks"); code = 0; }
    else if (done && w == 2) v_assert((addr != b), "the breakpoint is in place");
#endif
    v_assert((code == 0) == (o != REF_NONE), "an address is readable exactly when mapped");
#if OP == 5
    if (o == 1 && code == 0 && w == 1) v_assert(r == img[x], "the image is loaded");
#endif
    code = try_write(m, addr, w, 0);
    v_assert((code == 0) == ((o != REF_NONE) & !ref_ro(o)), "an address is writable exactly when mapped and not read-only");
#if OP == 4
    v_assert((MemorySim_WasWatchpointEncountered(m) != 0) == ((done != 0) & (w == 1) & (addr == b)), "only the watchpoint that was set is hit");
#endif
    v_cover("map probed");
}
void vf_main(void)
{
    int code, failed; uint32_t k, i;
    m = MemorySim_Init();
    a = nd_u32(); wb = nd_u32(); ws = nd_u16();
    v_assert(try_create(m, wb, ws) == 0, "a region can be created");
    ref_region(wb, ws);
    s = nd_u16(); b = nd_access(1, &owner, &off);
    v_assume(owner != REF_NONE);
#if OP == 5
    for (i = 0; i < sizeof(img); i++) img[i] = nd_u8();
    img[0] = 0; img[1] = 1; img[2] = 0; img[3] = 0x20;
    v_assume((wb >= 0x30000000) & (wb < 0xF0000000));   /* apart from the new regions */
#elif OP == 6
    v_assume((off + 2 <= ws) & (b < 0xFFFFFFFE));
#endif
    k = nd_pick(MAXFAIL + 1);
    if (nd_pick(2)) env_failAlloc = env_allocs + 1 + k; else env_failAllocUp = env_allocs + 1 + k;
    code = op();
    failed = env_allocs >= env_failAlloc + env_failAllocUp;
    if (failed)
    {
        v_assert(code == outOfMemoryException, "a failed allocation is an out of memory exception");
        v_cover("allocation failed");
        if (nd_pick(2))
        {
            env_failAlloc = env_failAllocUp = 0;
            v_assert(op() == 0, "the operation works once memory is available again");
            op_ref();
            probe(1);
            v_cover("retried");
        }
        else { env_failAlloc = env_failAllocUp = 0; probe(0); }
    }
    else
    {
        v_assert(code == 0, "the operation works when no allocation fails");
        op_ref();
        env_failAlloc = env_failAllocUp = 0;
        probe(1);
        v_cover("nothing failed");
    }
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

/* Breakpoints and watchpoints (C07): NSET set/clear requests of any kind, range and order, then one access.  A request is in force when the
   last one for the same range and type was a set. */
#include "ref.h"
#ifndef NREG
#define NREG 1
#endif
#ifndef NALIAS
#define NALIAS 0
#endif
#ifndef NSET
#define NSET 2
#endif
#ifndef TOP
#define TOP 0
#endif
#ifndef BASES
#define BASES 0
#endif
#ifndef MAPPED
#define MAPPED 0
#endif
#ifndef TYPE
#define TYPE 0
#endif
#define BREAK 4
static IMemory* m;
static struct { uint32_t set, type, owner, off, size; } q[NSET];
static int request(uint32_t set, uint32_t type, uint32_t addr, uint32_t size)
{
    int code;
    if (type == BREAK) { if (set) CATCH(code, MemorySim_SetHardwareBreakpoint(m, addr, size)); else CATCH(code, MemorySim_ClearHardwareBreakpoint(m, addr, size)); }
    else if (set) CATCH(code, MemorySim_SetHardwareWatchpoint(m, addr, size, (WatchpointType)type));
    else CATCH(code, MemorySim_ClearHardwareWatchpoint(m, addr, size, (WatchpointType)type));
    return code;
}
void vf_main(void)
{
    uint32_t i, j, w, isWrite, addr, owner, off, r = 0, hitBreak = 0, hitWatch = 0; int code;
    m = MemorySim_Init();
    for (i = 0; i < NREG; i++)
    {
        uint32_t b = BASES ? 0x20000000u * (i + 1) + nd_u8() : nd_u32(), s = nd_off();
        if (TOP) b = 0u - s;
        v_assume((uint64_t)b + s <= 0x100000000ull);   /* a region lies inside the address space */
        v_assert(try_create(m, b, s) == 0, "a region can be created");
        ref_region(b, s);
    }
#if NALIAS
    {
        uint32_t o, x, at = nd_access(1, &o, &x), a = BASES ? 0x10000000u + nd_u8() : nd_u32(), s = nd_off();
        v_assume(o != REF_NONE);
        v_assert(try_alias(m, a, at, s) == 0, "an alias can be made");
        ref_alias(a, o, x, s);
    }
#endif
    for (i = 0; i < NSET; i++)
    {
        uint32_t type = TYPE ? TYPE : nd_pick(4) + 1, size = nd_u8();
        q[i].set = nd_pick(2); q[i].type = type; q[i].size = size;
        if (i == 0) v_assume(q[i].set);
        addr = nd_access(size, &q[i].owner, &q[i].off);
        if (MAPPED) v_assume(q[i].owner != REF_NONE);
        code = request(q[i].set, type, addr, size);
        v_assert((code == 0) == (q[i].owner != REF_NONE), "a break- or watchpoint request is accepted exactly when its range is mapped");
        v_assert((code == 0) | (code == busErrorException), "a request outside the map is a bus error");
        if (!MAPPED && code) v_cover("request refused");
    }
    v_assert(MemorySim_WasWatchpointEncountered(m) == 0, "requests alone hit nothing");
    isWrite = nd_pick(2); w = nd_width();
    addr = nd_access(w, &owner, &off);
    if (MAPPED) v_assume(owner != REF_NONE);
    for (i = 0; i < NSET; i++)
    {
        uint32_t live = q[i].set & (q[i].owner != REF_NONE) & (q[i].owner == owner), in;
        for (j = i + 1; j < NSET; j++)
            live &= q[j].set | (q[j].type != q[i].type) | (q[j].owner != q[i].owner) | (q[j].off != q[i].off) | (q[j].size != q[i].size);
        in = live & (off >= q[i].off) & (off + w <= q[i].off + q[i].size);
        if (q[i].type == BREAK) hitBreak |= in & (w == 2) & !isWrite;
        else hitWatch |= in & (((q[i].type & 1) & !isWrite) | ((q[i].type >> 1) & isWrite));
    }
    code = isWrite ? try_write(m, addr, w, 0x55) : try_read(m, addr, w, &r);
    if (!MAPPED && owner == REF_NONE) { v_assert(code == busErrorException, "an unmapped access is a bus error"); v_cover("unmapped access"); }
    else if (!TYPE && code)
    {
        v_assert(code == hardwareBreakpointException, "a mapped access only ever breaks");
        v_assert(hitBreak, "an access breaks only when it is a 16-bit read inside a breakpoint that is set");
        if (!TYPE) v_cover("breakpoint hit");
    }
    else
    {
        v_assert(code == 0, "an access that hits no breakpoint succeeds");
        v_assert(!hitBreak, "a 16-bit read inside a breakpoint that is set breaks");
        v_assert((MemorySim_WasWatchpointEncountered(m) != 0) == hitWatch, "a watchpoint is reported exactly when an access of its type lies inside it");
        if (hitWatch) v_cover("watchpoint hit"); else v_cover("nothing hit");
        v_assert(MemorySim_WasWatchpointEncountered(m) == 0, "asking about watchpoints clears the report");
    }
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

/* Flash read counts (C08): a read-only region of any base and size, NREAD accesses of any kind, then the count of any halfword. */
#include "ref.h"
#ifndef NREAD
#define NREAD 3
#endif
#ifndef BOTH
#define BOTH 0               /* 1: the second region is read-only, too, protected before or after the first */
#endif
#ifndef NALIAS
#define NALIAS 0
#endif
static int count(IMemory* m, uint32_t addr, uint32_t* p)
{
    uint32_t volatile v = 0; int code;
    CATCH(code, v = MemorySim_GetFlashReadCount(m, addr));
    *p = v;
    return code;
}
void vf_main(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t b = nd_u32(), s = nd_off(), b2 = nd_u32(), s2 = nd_off(), off[NREAD], o[NREAD], counted[NREAD], i, at, x, n = 0, got, r;
    int code;
    v_assert(try_create(m, b, s) == 0, "a region can be created"); ref_region(b, s);
    v_assert(try_create(m, b2, s2) == 0, "a second region can be created"); ref_region(b2, s2);
    v_assume(s != 0);
#if BOTH
    v_assume((s2 != 0) & (((uint64_t)b + s <= b2) | ((uint64_t)b2 + s2 <= b)));
    if (nd_pick(2)) { v_assert(try_readonly(m, b2) == 0 && try_readonly(m, b) == 0, "a region can be made read-only"); }
    else v_assert(try_readonly(m, b) == 0 && try_readonly(m, b2) == 0, "a region can be made read-only");
    ref_setro(1); ref_setro(0);
#else
    v_assert(try_readonly(m, b) == 0, "a region can be made read-only"); ref_setro(0);
#endif
#if NALIAS
    {
        uint32_t aa = nd_u32(), as = nd_off(), ao = nd_off();
        v_assume((ao < s) & (ao <= ~b));
        v_assert(try_alias(m, aa, b + ao, as) == 0, "an alias can be made");
        ref_alias(aa, 0, ao, as);
    }
#endif
    for (i = 0; i < NREAD; i++)
    {
        uint32_t kind = nd_pick(4), w = kind == 3 ? 2 : 1u << kind, addr = nd_access(w, &o[i], &off[i]);
        counted[i] = (kind == 1) & (o[i] == 0 || (BOTH && o[i] == 1));
        if (kind == 3) try_write(m, addr, w, 0); else try_read(m, addr, w, &r);
    }
#if NREAD == 1 && !NALIAS
    if (nd_pick(2)) { v_assert(try_readonly(m, b) == 0, "a region can be made read-only again"); v_cover("protected again"); }
#endif
    at = nd_access(2, &x, &i);
    code = count(m, at, &got);
    v_assert((code == 0) == (x == 0 || (BOTH && x == 1)), "counts exist exactly for mapped read-only memory");
    v_assert((code == 0) | (code == busErrorException), "asking elsewhere is a bus error");
    if (code == 0)
    {
        uint32_t k;
        for (k = 0; k < NREAD; k++) n += counted[k] & (o[k] == x) & ((off[k] >> 1) == (i >> 1));
        v_assert(got == n, "the count of a halfword is the number of 16-bit reads of it");
        if (NREAD > 1 && n > 1) v_cover("counted more than once");
        v_cover("count read");
    }
    else v_cover("count refused");
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

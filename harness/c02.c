/* Which addresses are mapped: NREG regions of any base and size up to MAXSIZE, one access of any width at any address, or a
   request for a host pointer to a range of any 32-bit length. */
#include "mem.h"
#ifndef NREG
#define NREG 2
#endif
#ifndef MAXSIZE
#define MAXSIZE 16
#endif
static uint32_t base[NREG], size[NREG];
static int mapped(uint32_t addr, uint32_t w)
{
    int i, r = 0;
    for (i = 0; i < NREG; i++)
        r |= (addr >= base[i]) & ((uint64_t)addr + w <= (uint64_t)base[i] + size[i]);
    return r;
}
void vf_main(void)
{
    IMemory* pMem = MemorySim_Init();
    int i, code;
    uint32_t addr, kind, val, w, r = 0;
    for (i = 0; i < NREG; i++)
    {
        base[i] = nd_u32();
        size[i] = nd_u32();
        v_assume(size[i] <= MAXSIZE);
        v_assert(try_create(pMem, base[i], size[i]) == 0, "creating a region succeeds");
    }
    addr = nd_u32(); kind = nd_u8(); val = nd_u32();
    v_assume(kind < 8);
    kind = v_concrete(kind);
    if (kind < 6)
    {
        w = 1 << (kind >> 1);
        if (kind & 1) code = try_write(pMem, addr, w, val);
        else code = try_read(pMem, addr, w, &r);
        v_assert(r == 0, "fresh memory reads as zero");
        v_assert((code == 0) == mapped(addr, w), "an access succeeds exactly when it lies wholly inside one region");
        if (code) v_cover("access fault"); else v_cover("access ok");
    }
    else
    {
        const uint8_t* volatile p = 0;
        w = nd_u32();
        if (kind & 1) CATCH(code, p = MemorySim_MapSimulatedAddressToHostAddressForRead(pMem, addr, w));
        else CATCH(code, p = MemorySim_MapSimulatedAddressToHostAddressForWrite(pMem, addr, w));
        v_assert((code == 0) == mapped(addr, w), "a range maps to host memory exactly when it lies wholly inside one region");
        if (code == 0)
        {
            v_assert(v_readable((const void*)p, w), "the host range holds the whole simulated range");
            v_cover("range ok");
        }
        else v_cover("range fault");
    }
    if (code) v_assert(code == busErrorException, "a bad access is a bus error");
    MemorySim_Uninit(pMem);
    v_assert(env_live == 0, "no leak");
}

/* Raw images (C11).  MODE 0: an image of any length up to N lands at any address of an existing (read-only or writable) region or faults;
   MODE 1: regions made from a flash image: flash at 0, RAM up to the initial stack pointer. */
#include "ref.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef N
#define N 11
#endif
static uint8_t img[N + 1];
void vf_main(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t i, size = nd_pick(N + 1), w, owner, off, addr, r = 0; int code;
    uint8_t* p;
    for (i = 0; i < N; i++) img[i] = nd_u8();
    p = v_sys_malloc(size);
    if (size) memcpy(p, img, size);
#if MODE == 0
    {
        uint32_t b = (nd_pick(2) ? 0xFFFFFF00u : 0x08000000u) + nd_u8(), s = nd_u8(), ro = nd_pick(2), at = b - 16 + nd_u8(), ok;
        v_assert(try_create(m, b, s) == 0, "a region can be created"); ref_region(b, s);
        if (ro) { v_assume(s != 0); v_assert(try_readonly(m, b) == 0, "a region can be made read-only"); ref[0].ro = 1; }
        ok = (size == 0) | ((at >= b) & ((uint64_t)at + size <= (uint64_t)b + s));
        v_assume((uint64_t)at + size <= 0x100000000ull);
        CATCH(code, MemorySim_LoadFromFlashImage(m, at, p, size));
        v_assert((code == 0) == ok, "an image loads exactly when it fits the region at its address");
        if (code)
        {
            v_assert(code == busErrorException, "an image that does not fit is a bus error"); v_cover("does not fit");
        }
        else
        {
            uint32_t k;
            addr = nd_access(1, &owner, &off);
            v_assume(owner == 0);
            v_assert(try_read(m, addr, 1, &r) == 0, "the region is still readable");
            k = addr - at;
            if (k < size) { v_assert(r == img[k], "the image is in memory"); v_cover("image byte"); }
            else { v_assert(r == 0, "the bytes around the image are untouched"); v_cover("byte outside the image"); }
            v_assert((try_write(m, addr, 1, 1) == 0) == !ro, "loading does not change the protection");
        }
    }
#else
    {
        uint32_t sp = img[0] | ((uint32_t)img[1] << 8) | ((uint32_t)img[2] << 16) | ((uint32_t)img[3] << 24);
        v_assume((sp & 0x0FFFFFFF) < 0x10000);
        CATCH(code, MemorySim_CreateRegionsFromFlashImage(m, p, size));
        v_assert((code == 0) == (size >= 4), "regions are made exactly when the image holds a stack pointer");
        if (code == 0)
        {
            ref_region(0, size); ref[0].ro = 1;
            ref_region(sp & 0xF0000000, sp & 0x0FFFFFFF);
            v_cover("regions made");
        }
        else { v_assert(code == bufferOverrunException, "a too short image is a buffer overrun"); v_cover("too short"); }
        w = nd_width(); addr = nd_access(w, &owner, &off);
        code = try_read(m, addr, w, &r);
        v_assert((code == 0) == (owner != REF_NONE), "exactly flash and RAM are mapped");
        if (code == 0 && owner == 0)
        {
            uint32_t bad = 0;
            for (i = 0; i < w; i++) bad |= ((r >> (8 * i)) & 0xFF) ^ img[off + i];
            v_assert(bad == 0, "flash holds the image"); v_cover("flash read");
        }
        else if (code == 0) { v_assert(r == 0, "RAM starts zeroed"); v_cover("RAM read"); }
        code = try_write(m, addr, w, nd_u32());
        v_assert((code == 0) == (owner == 1), "only RAM is writable");
    }
#endif
    v_sys_free(p);
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

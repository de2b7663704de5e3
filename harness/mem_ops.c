/* Any sequence of region creations and accesses: contents, faults, read-only regions, aliases (C01-C04).
   NREG regions, RO: make one of them read-only, NALIAS aliases, OPS accesses of any kind, then one checked access.
   A cell (owner entry, offset) picked by the solver carries the expected byte. */
#include "ref.h"
#include <stdlib.h>
#include <string.h>
#ifndef NREG
#define NREG 2
#endif
#ifndef NALIAS
#define NALIAS 0
#endif
#ifndef RO
#define RO 0
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef IMG
#define IMG 0
#endif
#ifndef FINAL
#define FINAL 1
#endif
#ifndef KINDS
#define KINDS 3
#endif
static IMemory* m;
static uint32_t cellOwner, cellOff, cell;
#if IMG
static uint8_t img[IMG];
#endif
#if OPS
#if KINDS > 2
static int try_mapw(uint32_t addr, uint32_t size, uint8_t** pp)
{
    int volatile code = 0;
    __try *pp = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, addr, size);
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
static int try_mapr(uint32_t addr, uint32_t size, const uint8_t** pp)
{
    int volatile code = 0;
    __try *pp = MemorySim_MapSimulatedAddressToHostAddressForRead(m, addr, size);
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
#endif
#endif
/* the cell's byte within a little-endian value of the access at (owner, off) */
static uint32_t hits(uint32_t owner, uint32_t off, uint32_t w) { return (owner == cellOwner) & (cellOff >= off) & (cellOff - off < w); }
#if OPS
static void step(void)
{
    uint32_t kind = nd_pick(KINDS), w = kind == 2 ? nd_off() : nd_width(), val = ref_trunc(nd_u32(), w);
    uint32_t owner, off, addr = nd_access(w, &owner, &off), ok, r = 0;
    int code;
    if (kind == 0)
    {
        ok = (owner != REF_NONE) & !ref_ro(owner);
        code = try_write(m, addr, w, val);
        v_assert((code == 0) == ok, "a write succeeds exactly when one writable region holds it");
        cell = ref_sel(ok & hits(owner, off, w), (val >> (8 * ((cellOff - off) & 3))) & 0xFF, cell);
        if (code == 0) v_cover("write done"); else v_cover("write faults");
    }
#if KINDS > 1
    else if (kind == 1)
    {
        ok = owner != REF_NONE;
        code = try_read(m, addr, w, &r);
        v_assert((code == 0) == ok, "a read succeeds exactly when one region holds it");
        v_assert(((ok & hits(owner, off, w)) == 0) | (((r >> (8 * ((cellOff - off) & 3))) & 0xFF) == cell), "a read returns the last byte written there");
        if (code == 0) v_cover("read done"); else v_cover("read faults");
    }
#endif
#if KINDS > 2
    else
    {
        const uint8_t* p = 0; uint8_t* q = 0;
        ok = owner != REF_NONE;
        code = try_mapr(addr, w, &p);
        v_assert((code == 0) == ok, "a range maps to host memory for reading exactly when one region holds it");
        if (code == 0)
        {
            if (hits(owner, off, w)) v_assert(p[cellOff - off] == cell, "the mapped range shows the region's bytes");
            v_cover("range mapped");
        }
        else v_assert(code == busErrorException, "a range outside the map is a bus error");
        ok &= !ref_ro(owner);
        code = try_mapw(addr, w, &q);
        v_assert((code == 0) == ok, "a range maps to host memory for writing exactly when one writable region holds it");
        v_assert((code != 0) | (p == q), "both mappings show the same bytes");
        if (code == 0 && hits(owner, off, w)) { q[cellOff - off] = (uint8_t)val; cell = val & 0xFF; v_cover("written through a mapping"); }
    }
#endif
    v_assert((code == 0) | (code == busErrorException), "an access fault is a bus error");
}
#endif
void vf_main(void)
{
    int i, code;
    m = MemorySim_Init();
    for (i = 0; i < NREG; i++)
    {
        uint32_t b = nd_u32(), s = nd_off();
        code = try_create(m, b, s);
        v_assert(code == 0, "a region can be created anywhere");
        ref_region(b, s);
    }
    cellOwner = nd_pick(NREG); cellOff = nd_off();
    v_assume(cellOff < ref_size(cellOwner));
#if IMG
    {   /* an image of 1 to IMG bytes loaded at any address of entry 0 */
        uint32_t off = nd_off(), at = ref[0].base + off, owner = 0; int len = 1 + (int)nd_pick(IMG);
        uint8_t* blob = v_sys_malloc(len);
        for (i = 0; i < IMG; i++) img[i] = nd_u8();
        memcpy(blob, img, len);
        v_assume(off + len <= ref[0].size);
        v_assume((at <= 0u - len) & (at >= ref[0].base));
        code = try_load(m, at, blob, len);
        v_assert(code == 0, "loading an image into a mapped range succeeds");
        v_sys_free(blob);
        for (i = 0; i < len; i++) cell = ref_sel((owner == cellOwner) & (cellOff - off == (uint32_t)i), img[i], cell);
    }
#endif
#if RO
    {
        uint32_t owner, off, at = nd_access(1, &owner, &off);
        code = try_readonly(m, at);
        v_assert((code == 0) == (owner != REF_NONE), "a region becomes read-only exactly when the address is mapped");
        v_assert((code == 0) | (code == busErrorException), "making an unmapped address read-only is a bus error");
        ref_setro(owner);
        if (code == 0) v_cover("read-only region"); else v_cover("read-only request outside the map");
        if (RO > 1 && code == 0) v_assert(try_readonly(m, at) == 0, "a region can be made read-only twice");
    }
#endif
    for (i = 0; i < NALIAS; i++)
    {
        uint32_t owner, off, a = nd_u32(), r = nd_access(1, &owner, &off), s = nd_off();
        code = try_alias(m, a, r, s);
        if (owner != REF_NONE) ref_alias(a, owner, off, s);
        v_assert((code == 0) == (owner != REF_NONE), "an alias can be made exactly when its target is mapped");
        v_assert((code == 0) | (code == busErrorException), "an alias of an unmapped address is a bus error");
        if (code == 0) v_cover("alias made"); else v_cover("alias refused");
    }
#if OPS
    for (i = 0; i < OPS; i++) step();
#endif
#if FINAL
    {
        uint32_t w = nd_width(), owner, off, addr = nd_access(w, &owner, &off), r = 0;
        code = try_read(m, addr, w, &r);
        v_assert((code == 0) == (owner != REF_NONE), "the final read succeeds exactly when one region holds it");
        if (code == 0)
        {
            uint32_t h = hits(owner, off, w);
            v_assert((h == 0) | (((r >> (8 * ((cellOff - off) & 3))) & 0xFF) == cell), "the final read returns the last byte written there");
            v_cover("final read");
        }
    }
#endif
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

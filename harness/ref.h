/* Reference model of the simulated memory map: entries in creation order, the first one that holds the whole access wins.
   Branch-free so that the oracle adds no paths of its own. */
#ifndef REF_H_
#define REF_H_
#include "mem.h"
#define REF_MAX 8
#define REF_NONE 0xFFu
#ifdef SMALL              /* offsets and sizes below 256 */
#define nd_off nd_u8
#else
#define nd_off nd_u16
#endif
typedef struct { uint32_t base, size, owner, delta, ro; } RefEntry;   /* owner: entry that holds the bytes; delta: offset there */
static RefEntry ref[REF_MAX];
static unsigned ref_n;
static uint32_t ref_sel(uint32_t c, uint32_t a, uint32_t b) { uint32_t m = 0u - (c & 1u); return (a & m) | (b & ~m); }
static uint32_t ref_in(unsigned i, uint32_t addr, uint32_t w)
{
    return (addr >= ref[i].base) & ((uint64_t)addr + w <= (uint64_t)ref[i].base + ref[i].size);
}
/* owner of the access or REF_NONE; *pOff: offset in the owner */
static uint32_t ref_lookup(uint32_t addr, uint32_t w, uint32_t* pOff)
{
    uint32_t owner = REF_NONE, off = 0;
    int i;
    for (i = (int)ref_n - 1; i >= 0; i--)
    {
        uint32_t in = ref_in(i, addr, w);
        owner = ref_sel(in, ref[i].owner, owner);
        off = ref_sel(in, addr - ref[i].base + ref[i].delta, off);
    }
    *pOff = off;
    return owner;
}
static uint32_t ref_ro(uint32_t owner)
{
    uint32_t r = 0; unsigned i;
    for (i = 0; i < ref_n; i++) r = ref_sel(owner == i, ref[i].ro, r);
    return r;
}
static uint32_t ref_size(uint32_t owner)
{
    uint32_t r = 0; unsigned i;
    for (i = 0; i < ref_n; i++) r = ref_sel(owner == i, ref[i].size, r);
    return r;
}
static void ref_region(uint32_t base, uint32_t size)
{
    ref[ref_n].base = base; ref[ref_n].size = size; ref[ref_n].owner = ref_n; ref[ref_n].delta = 0; ref[ref_n].ro = 0;
    ref_n++;
}
/* an alias of (owner, off), which nd_access() found mapped */
static void ref_alias(uint32_t alias, uint32_t owner, uint32_t off, uint32_t size)
{
    uint32_t room = ref[owner].size - off;
    ref[ref_n].base = alias;
    ref[ref_n].size = ref_sel(size > room, room, size);
    ref[ref_n].owner = owner; ref[ref_n].delta = off; ref[ref_n].ro = ref[owner].ro;
    ref_n++;
}
static void ref_setro(uint32_t owner)
{
    unsigned i;
    for (i = 0; i < ref_n; i++) ref[i].ro = ref_sel(owner == i, 1, ref[i].ro);
}
static uint32_t nd_pick(uint32_t n) { uint32_t k = nd_u8(); v_assume(k < n); return (uint32_t)v_concrete(k); }
/* Any address at all, split by the entry that holds the access (ref_n: none); inside an entry it is written as base + offset.
   *pOwner, *pOff: where the bytes live. */
static uint32_t nd_access(uint32_t w, uint32_t* pOwner, uint32_t* pOff)
{
    uint32_t e = nd_pick(ref_n + 1), addr; unsigned i;
    if (e == ref_n)
    {
        uint32_t any = 0;
        addr = nd_u32();
        for (i = 0; i < ref_n; i++) any |= ref_in(i, addr, w);
        v_assume(!any);
        *pOwner = REF_NONE; *pOff = 0;
        return addr;
    }
    else
    {
        uint32_t off = nd_off(), before = 0;
        v_assume((uint64_t)off + w <= ref[e].size);
        addr = ref[e].base + off;
        v_assume(ref_in(e, addr, w));              /* not past the end of the address space */
        for (i = 0; i < e; i++) before |= ref_in(i, addr, w);
        v_assume(!before);
        *pOwner = ref[e].owner; *pOff = off + ref[e].delta;
        return addr;
    }
}
static uint32_t nd_width(void) { return 1u << nd_pick(3); }
/* widest value of W bytes */
static uint32_t ref_trunc(uint32_t v, uint32_t w) { return v & ref_sel(w == 4, 0xFFFFFFFFu, ref_sel(w == 2, 0xFFFFu, 0xFFu)); }
#endif

/* Memory map text (C06): NREG regions of any base and size (sizes below MAXSIZE or, HUGE, of eight digits), any subset of the first NRO made
   read-only, optionally an alias; the text equals one built here. */
#include "ref.h"
#ifndef NREG
#define NREG 1
#endif
#ifndef NRO
#define NRO NREG
#endif
#ifndef NALIAS
#define NALIAS 0
#endif
#ifndef BIG
#define BIG 0
#endif
#ifndef SPREAD
#define SPREAD 0
#endif
static char want[1024]; static unsigned n;
static void put(const char* s) { while (*s) want[n++] = *s++; }
static void hex(uint32_t v)
{
    int d = 28;
    while (d > 0 && (v >> d) == 0) d -= 4;
    for (; d >= 0; d -= 4) { uint32_t x = (v >> d) & 15; want[n++] = (char)(x + '0' + (x > 9) * 7); }
}
static void entry(uint32_t b, uint32_t s, uint32_t ro)
{
    put("<memory type=\""); put(ro ? "flash" : "ram"); put("\" start=\"0x"); hex(b); put("\" length=\"0x"); hex(s); put("\">");
    if (ro) put(" <property name=\"blocksize\">1</property>");
    put("</memory>");
}
static void expect(void)
{
    unsigned i;
    n = 0;
    put("<?xml version=\"1.0\"?><!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\"><memory-map>");
    for (i = 0; i < ref_n; i++) entry(ref[i].base, ref[i].size, ref_ro(ref[i].owner));
    put("</memory-map>");
    want[n++] = 0;
}
static void compare(IMemory* m)
{
    const char* volatile x = 0; int code; unsigned i, bad = 0;
    CATCH(code, x = MemorySim_GetMemoryMapXML(m));
    v_assert(code == 0, "the memory map text can be made");
    expect();
    for (i = 0; i < n; i++) bad |= (unsigned)(x[i] ^ want[i]);
    v_assert(bad == 0, "the memory map text lists every region in order with its type, start and length");
}
void vf_main(void)
{
    IMemory* m = MemorySim_Init(); unsigned i, a = 0;
    if (nd_pick(2)) { compare(m); v_cover("empty map"); }
    for (i = 0; i < NREG; i++)
    {
        uint32_t b = nd_u32(), s = BIG ? nd_u16() & 0xFFF : nd_u32();
        if (BIG) s |= 0x10000000;
        else v_assume(s < 0x100000);
        if (SPREAD) { v_assume((b >> 28) == 1 + i); v_assume((s >> 16) != 0); v_assume((b & 0xFFFFFFF) < 0xF000000); }
        v_assert(try_create(m, b, s) == 0, "a region can be created");
        ref_region(b, s);
    }
#if NREG == 1
    if (nd_pick(2)) { compare(m); v_cover("asked before protection"); }
#endif
    for (i = 0; i < NRO; i++)
        if (nd_pick(2))
        {
            unsigned j;
            if (NREG > 1 && !SPREAD) for (j = 0; j < i; j++) v_assume(!ref_in(j, ref[i].base, 1));
            v_assume(ref[i].size != 0);
            v_assert(try_readonly(m, ref[i].base) == 0, "a region can be made read-only");
            ref[i].ro = 1;
            v_cover("flash region");
        }
#if NALIAS
    {
        uint32_t owner, off, at = nd_access(1, &owner, &off), s = nd_u16();
        a = nd_u32() | 0x80000000;
        v_assume(s > 0xFFF); v_assume(owner != REF_NONE); v_assume(ref_size(owner) - off > 0xFFF);
        v_assert(try_alias(m, a, at, s) == 0, "an alias can be made");
        ref_alias(a, owner, off, s);
        v_assume(ref[ref_n - 1].size > 0xFFF);
        if (nd_pick(2))                                  /* the memory the alias stands for becomes read-only, asked for under either address */
        {
            v_assert(try_readonly(m, nd_pick(2) ? a : at) == 0, "a region can be made read-only");
            ref_setro(owner);
            v_cover("read-only behind an alias");
        }
    }
#endif
    compare(m);
    if (nd_pick(2)) { compare(m); v_cover("asked twice"); }
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

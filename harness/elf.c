/* ELF loading (C09, C10).  The blob is a heap block of exactly SIZE bytes: header, NPH program headers of ENT bytes each at PHOFF, then data.
   MODE 0: fields of the ELF header are free; MODE 1: fields of the program headers are free; MODE 2: the blob is cut anywhere;
   MODE 3: well-formed segments only, contents checked. */
#include "ref.h"
#include <ElfLoad.h>
#ifndef MODE
#define MODE 1
#endif
#ifndef NPH
#define NPH 1
#endif
#ifndef DATA
#define DATA 8
#endif
#ifndef ENT
#define ENT 32
#endif
#ifndef SEG
#define SEG 5             /* longest well-formed segment */
#endif
#ifndef BIGADDR
#define BIGADDR 0x80000
#endif
#define TOTAL (52 + NPH * ENT + DATA)
static IMemory* m;
static uint8_t full[TOTAL];
static void p16(uint32_t o, uint32_t v) { full[o] = (uint8_t)v; full[o + 1] = (uint8_t)(v >> 8); }
static void p32(uint32_t o, uint32_t v) { p16(o, v); p16(o + 2, v >> 16); }
void vf_main(void)
{
    uint32_t i, size = TOTAL, ok = 1, loads = 0, phoff = 52, phnum = NPH, ent = ENT, overlap = 0; int code;
    uint32_t paddr[NPH], off[NPH], filesz[NPH], loaded[NPH];
    uint8_t* blob;
    m = MemorySim_Init();
    for (i = 0; i < TOTAL; i++) full[i] = nd_u8();
#if MODE == 0
    phoff = nd_u32(); phnum = nd_u16(); ent = nd_u16();
    v_assume((phoff == 0) | (phoff == 52) | (phoff > TOTAL - 32));
    v_assume(phnum <= NPH + 2);
    phnum = v_concrete(phnum);
    if (nd_pick(2)) { full[0] = 0x7f; full[1] = 'E'; full[2] = 'L'; full[3] = 'F'; full[4] = 1; full[5] = 1; full[16] = 2; full[17] = 0; v_cover("good identification"); }
    v_assume((phnum < 2) | (ent <= 32) | (ent == ENT) | (ent > TOTAL));
#else
    full[0] = 0x7f; full[1] = 'E'; full[2] = 'L'; full[3] = 'F'; full[4] = 1; full[5] = 1; full[16] = 2; full[17] = 0;
#endif
    p32(28, phoff); p16(42, ent); p16(44, phnum);
    ok = (full[0] == 0x7f) & (full[1] == 'E') & (full[2] == 'L') & (full[3] == 'F') & (full[4] == 1) & (full[5] == 1) & (full[16] == 2) & (full[17] == 0)
       & (phoff != 0) & (phnum != 0) & (ent >= 32);
    for (i = 0; i < NPH; i++)
    {
        uint32_t type, memsz, h = 52 + i * ENT;
#if MODE == 0
        type = 1; off[i] = 52 + NPH * ENT; filesz[i] = 1; memsz = 1; paddr[i] = 0x1000 * i;
#elif MODE == 4
        type = 1; off[i] = 52 + NPH * ENT + nd_pick(2); filesz[i] = nd_pick(DATA); memsz = nd_u32(); paddr[i] = (nd_u8() | (BIGADDR << 8)) + i * 0x1000;
#elif MODE == 3
        type = nd_u32(); off[i] = nd_u32(); filesz[i] = nd_u32(); memsz = nd_u32(); paddr[i] = nd_u32();
        v_assume((filesz[i] <= SEG) & ((uint64_t)off[i] + filesz[i] <= TOTAL));
        if (type == 1) v_cover("loadable type"); else v_cover("other type");
#else
        type = nd_u32(); off[i] = nd_u32(); filesz[i] = nd_u32(); memsz = nd_u32(); paddr[i] = nd_u32();
        v_assume((filesz[i] <= SEG) | ((uint64_t)off[i] + filesz[i] > TOTAL));
#if MODE == 2
        v_assume((type == 1) & (filesz[i] == 3) & (memsz == 3) & (off[i] < TOTAL));
#endif
#endif
        v_assume((uint64_t)paddr[i] + (filesz[i] & 0xFF) <= 0x100000000ull);
        p32(h, type); p32(h + 4, off[i]); p32(h + 12, paddr[i]); p32(h + 16, filesz[i]); p32(h + 20, memsz);
        loaded[i] = (type == 1) & (filesz[i] != 0) & (memsz >= filesz[i]);
    }
#if MODE == 2
    size = nd_pick(TOTAL + 1);
    ok &= size >= 52;
    v_cover("any length");
#endif
#if MODE == 0
    /* entry i lies at phoff + i * ent: either exactly entry i, or out of the file */
    for (i = 0; i < phnum; i++)
    {
        uint64_t at = (uint64_t)phoff + (uint64_t)i * ent;
        ok &= at + 32 <= TOTAL;
    }
    v_assume((!ok) | (phnum < 2) | (ent == ENT));
    v_assume((!ok) | (phnum <= NPH));
    v_assume((ent != 32 ) | (ENT == 32));
    for (i = 0; i < NPH; i++) loaded[i] &= i < phnum;
#endif
    for (i = 0; i < NPH; i++)
    {
        uint32_t j;
        ok &= 52 + i * ENT + 32 <= size | MODE == 0;
        ok &= (!loaded[i]) | ((uint64_t)off[i] + filesz[i] <= size);
        loads += loaded[i];
        for (j = 0; j < i; j++)
            overlap |= loaded[i] & loaded[j] & ((uint64_t)paddr[i] < (uint64_t)paddr[j] + (filesz[j] & 0xFFFF)) & ((uint64_t)paddr[j] < (uint64_t)paddr[i] + (filesz[i] & 0xFFFF));
    }
    ok &= loads != 0;
    v_assume(!overlap);
    blob = v_sys_malloc(size);
    if (size) memcpy(blob, full, size);
    CATCH(code, ElfLoad_FromMemory(m, blob, size));
    v_assert((code == 0) == ok, "an ELF file is accepted exactly when it is well formed and has something to load");
    if (code)
    {
        v_assert(code == elfFormatException, "a malformed ELF file is an ELF format exception");
        v_assert(strncmp(getExceptionMessage(), "ELF ", 4) == 0, "the message says what is wrong with the file");
        if (MODE < 3) v_cover("rejected");
    }
    else
    {
        uint32_t w = MODE >= 3 ? nd_width() : 1, owner, x, addr, r = 0; int c;
        v_cover("accepted");
        for (i = 0; i < NPH; i++)
            if (loaded[i]) { ref_region(paddr[i], filesz[i]); ref[ref_n - 1].ro = off[i]; }
        addr = nd_access(w, &owner, &x);
        c = try_read(m, addr, w, &r);
        v_assert((c == 0) == (owner != REF_NONE), "exactly the loaded segments are mapped");
        if (c == 0)
        {
            uint32_t o = ref[owner].ro + x, bad = 0;
            v_assert(o + w <= TOTAL, "segment bytes come from the file");
            for (i = 0; i < w; i++) bad |= ((r >> (8 * i)) & 0xFF) ^ full[o + i];
            v_assert(bad == 0, "a loaded segment holds the bytes of the file");
            v_assert(try_write(m, addr, w, 0) == busErrorException, "a loaded segment is read-only");
            v_cover("segment read");
        }
    }
    v_sys_free(blob);
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}

/* Large cases: sizes and counts are fixed and big, contents (and what is looked at) free.  KIND:
   1 accesses far into a large region, host mapping of all of it; also through an alias (C01, C02, C04)   2 many read counts (C08)
   3 many watchpoints (C07)   4 memory map of many regions (C06)   5 long GDB log (C15)   6 long dump, HEX 0/1 (C12, C13)
   7 large ELF segment, many program headers (C09)   8 large flash image (C11)   9 long lines in a GDB log (C17)   10 ELF with many program headers (C10) */
#include "ref.h"
#include <stdlib.h>
#include <ElfLoad.h>
#include <GdbLogParser.h>
#include <CrashCatcherDump.h>
#ifndef HEX
#define HEX 0
#endif
#ifndef BIG
#define BIG 70000u
#endif
static IMemory* m;
static RegisterContext ctx;
static uint32_t probe(unsigned i) { static const uint32_t at[] = { 0, 1, 254, 255, 256, 257, 1022, 1023, 1024, 1025, 4095, 4096, 32767, 32768, 65532, 65533, 65534, 65535, 65536, 65537, BIG - 5, BIG - 4, BIG - 3, BIG - 2, BIG - 1 }; return at[i]; }
#define PROBES 25
static uint8_t fill(uint32_t i) { return (uint8_t)(i * 7 + (i >> 8) * 3 + (i >> 16) + 1); }
#if KIND == 5 || KIND == 9
static unsigned put(char* p, const char* s) { unsigned n = 0; while (*s) p[n++] = *s++; return n; }
static unsigned hex8(char* p, uint32_t v) { int i; p[0] = '0'; p[1] = 'x'; for (i = 0; i < 8; i++) p[2 + i] = "0123456789abcdef"[(v >> (28 - 4 * i)) & 15]; return 10; }
#endif
void vf_main(void)
{
    uint32_t i, r = 0, bad = 0; int code;
    m = MemorySim_Init();
#if KIND == 1
    {
        uint32_t base = nd_pick(2) ? 0x20000000 : 0u - BIG, w, at, at2, v, w2, ro, alias, got, j;
        const uint8_t* p; uint8_t* q = 0;
        static const uint32_t aoff[3] = { 0, 65536, 3 };
        v_assert(try_create(m, base, BIG) == 0, "a large region can be made");
        q = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, base, BIG);
        for (j = 0; j < BIG; j++) bad |= q[j];
        v_assert(!bad, "fresh memory is zero");
        alias = nd_pick(3);
        v_assert(try_alias(m, 0x40000000, base + aoff[alias], BIG) == 0, "a large region can have an alias");
        at = probe(nd_pick(PROBES)); w = nd_width();
        v_assume(at + w <= BIG);
        v = ref_trunc(nd_u32(), w);
        ro = nd_pick(2);
        at2 = at - nd_pick(3) + nd_pick(3); w2 = nd_width();
        v_assume(at2 < BIG && at2 + w2 <= BIG);
        code = alias && at >= aoff[alias] ? try_write(m, 0x40000000 + at - aoff[alias], w, v) : try_write(m, base + at, w, v);
        v_assert(code == 0, "a write inside a large region succeeds");
        if (ro) { v_assert(try_readonly(m, base + BIG - 1) == 0, "a large region can be made read-only"); v_assert(try_write(m, base + at, w, 0) == busErrorException, "read-only memory keeps its bytes"); v_cover("read-only"); }
        v_assert(try_read(m, base + at2, w2, &got) == 0, "a read inside a large region succeeds");
        for (j = 0; j < w2; j++) { uint32_t x = at2 + j - at; bad |= (got >> (8 * j) & 0xFF) ^ (x < w ? v >> (8 * x) & 0xFF : 0); }
        v_assert(!bad, "a read returns the last bytes written");
        if (at2 >= aoff[alias])
        {
            v_assert(try_read(m, 0x40000000 + at2 - aoff[alias], w2, &r) == 0, "a read through an alias of a large region succeeds");
            v_assert(r == got, "an alias shows the bytes of the memory it stands for");
            v_cover("through the alias");
        }
        v_assert(try_read(m, 0x40000000 + BIG - aoff[alias], 1, &r) == busErrorException, "an alias ends with its memory");
        v_assert(try_read(m, base + BIG - w + 1, w, &r) == busErrorException, "nothing is beyond the end");
        p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, base + 1, BIG - 1);
        v_assert(p == q + 1, "all of a large region maps to host memory");
        if (ro) { CATCH(code, q = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, base, BIG)); v_assert(code == busErrorException, "all of a read-only region maps for reading only"); }
        v_cover("large region");
    }
#elif KIND == 2
    {
        static const uint32_t counts[] = { 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537 };
        uint32_t n = counts[nd_pick(9)], h = nd_pick(4), via = nd_pick(2), data = nd_u16(), j;
        v_assert(try_create(m, 0x1000, 8) == 0 && try_write(m, 0x1000 + 2 * h, 2, data) == 0 && try_readonly(m, 0x1000) == 0 && try_alias(m, 0x40000000, 0x1000, 8) == 0, "a read-only region and an alias can be made");
        for (j = 0; j < n; j++) { IMemory_Read16(m, (via && (j & 1) ? 0x40000000 : 0x1000) + 2 * h); if (!(j & 255)) IMemory_Read32(m, 0x1000 + (h & 2)); }
        v_assert(IMemory_Read16(m, 0x1000 + 2 * h) == data, "reading changes nothing");
        for (j = 0; j < 4; j++) v_assert(MemorySim_GetFlashReadCount(m, 0x1000 + 2 * j) == (j == h ? n + 1 : 0), "the count of a halfword is the number of 16-bit reads of it");
        v_cover("counted");
    }
#elif KIND == 3
    {
        enum { N = 26 };
        uint32_t order = nd_pick(4), gone = nd_pick(2) * 3 + 2, where[N], len[N], type[N], hit = 0, w, off, isWrite, j, same = nd_pick(2);
        v_assert(try_create(m, 0x20000000, 0x200) == 0, "a region can be made");
        for (j = 0; j < N; j++)
        {
            uint32_t k = order == 0 ? j : order == 1 ? N - 1 - j : order == 2 ? j * 11 % N : j * 15 % N;
            where[j] = same ? (k / 8) * 64 : k * 8; len[j] = same ? 1 + (k * 5) % 40 : 1 + k % 12; type[j] = 1 + k % 3;
            MemorySim_SetHardwareWatchpoint(m, 0x20000000 + where[j], len[j], (WatchpointType)type[j]);
        }
        for (j = 0; j < N; j++) if (gone < 5 && j % 5 == gone) { MemorySim_ClearHardwareWatchpoint(m, 0x20000000 + where[j], len[j], (WatchpointType)type[j]); type[j] = 0; }
        w = nd_width(); isWrite = nd_pick(2); off = nd_u16();
        v_assume(off + w <= 0x200);
        for (j = 0; j < N; j++) hit |= (off >= where[j]) & (off + w <= where[j] + len[j]) & (isWrite ? type[j] >> 1 : type[j] & 1);
        code = isWrite ? try_write(m, 0x20000000 + off, w, 5) : try_read(m, 0x20000000 + off, w, &r);
        v_assert(code == 0, "an access that hits no breakpoint succeeds");
        v_assert((MemorySim_WasWatchpointEncountered(m) != 0) == hit, "a watchpoint is reported exactly when an access of its type lies inside it");
        if (hit) v_cover("hit"); else v_cover("missed");
    }
#elif KIND == 4
    {
        static const uint32_t counts[] = { 16, 63, 64, 65, 127, 128, 255, 256, 257, 300 };
        uint32_t n = counts[nd_pick(10)], ro = nd_pick(2), j, special = nd_pick(3), odd; const char* x; static char line[160];
        odd = special == 0 ? 0 : special == 1 ? n / 2 : n - 1;
        for (j = 0; j < n; j++)
        {
            v_assert(try_create(m, 0x80000000 + 0x100000 * j, 0x10 + (j & 15)) == 0, "many regions can be made");
            if (ro != (j == odd)) v_assert(try_readonly(m, 0x80000000 + 0x100000 * j) == 0, "regions can be made read-only");
        }
        x = MemorySim_GetMemoryMapXML(m);
        x = strstr(x, "<memory-map>"); v_assert(x != NULL, "the memory map begins with its header");
        x += 12;
        for (j = 0; j < n; j++)
        {
            int len = sprintf(line, "<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>", ro != (j == odd) ? "flash" : "ram", 0x80000000 + 0x100000 * j, 0x10 + (j & 15), ro != (j == odd) ? " <property name=\"blocksize\">1</property>" : "");
            bad |= memcmp(x, line, len) != 0;
            if (bad) break;
            x += len;
        }
        v_assert(!bad, "the memory map text lists every region in order with its type, start and length");
        v_assert(0 == strcmp(x, "</memory-map>"), "the memory map ends with its trailer");
        v_cover("many regions");
    }
#elif KIND == 5
    {
        enum { LINES = 4400 };
        uint32_t n = 0, j, k, odd, v = 0, at, w, off; char* text = v_sys_malloc(LINES * 60 + 200);
        static const uint32_t special[] = { 0, 1, 255, 256, 4094, 4095, 4096, LINES - 1 };
        odd = special[nd_pick(8)];
        for (j = 0; j < LINES; j++)
        {
            n += hex8(text + n, 0x20000000 + 16 * j); n += put(text + n, ":");
            for (k = 0; k < 4; k++)
            {
                n += put(text + n, "\t");
                if (j == odd && k == 2)
                {
                    n += put(text + n, "0x");
                    for (i = 0; i < 8; i++) { uint32_t d = nd_u8(); v_assume(d < 10); v = v << 4 | d; text[n++] = (char)('0' + d); }
                }
                else n += hex8(text + n, 0x01020304 * (j & 31) + 0x10000 * j + k);
            }
            n += put(text + n, "\n");
        }
        env_files[0].name = "log"; env_files[0].data = (const uint8_t*)text; env_files[0].size = n;
        CATCH(code, GdbLogParse(m, &ctx, "log"));
        v_assert(code == 0, "a long log is accepted");
        at = special[nd_pick(8)]; k = nd_pick(4);
        v_assert(try_read(m, 0x20000000 + 16 * at + 4 * k, 4, &r) == 0, "every word of a long log is mapped");
        v_assert(r == (at == odd && k == 2 ? v : 0x01020304 * (at & 31) + 0x10000 * at + k), "every word of a long log has its value");
        v_assert(try_write(m, 0x20000000 + 16 * LINES - 4, 4, 1) == 0 && try_read(m, 0x20000000 + 16 * LINES, 1, &r) == busErrorException && try_read(m, 0x20000000 - 1, 1, &r) == busErrorException, "nothing else is mapped");
        w = 0; off = 0; (void)w; (void)off;
        v_cover("long log");
        v_sys_free(text);
    }
#elif KIND == 6
    {
        uint32_t head = 8 + 19 * 4 + 4, len = head + 8 + BIG + 8 + 300, n = 0, j, x, second; uint8_t* raw = v_sys_malloc(len); char* text = v_sys_malloc(2 * len + len / 16 + 10);
        x = HEX ? probe(nd_pick(4) * 8) : probe(nd_pick(PROBES)); second = nd_pick(2);
        memset(raw, 0, head);
        raw[0] = 0x63; raw[1] = 0x43; raw[2] = 3;
        memcpy(raw + head, "\x00\x00\x00\x20", 4); r = 0x20000000 + BIG; for (j = 0; j < 4; j++) raw[head + 4 + j] = (uint8_t)(r >> 8 * j);
        for (j = 0; j < BIG; j++) raw[head + 8 + j] = fill(j);
        raw[head + 8 + x] = HEX ? nd_u8() & 0x77 : nd_u8();
        if (second) { n = head + 8 + BIG; memcpy(raw + n, "\x00\x00\x00\x10\x2c\x01\x00\x10", 8); for (j = 0; j < 300; j++) raw[n + 8 + j] = fill(j ^ 0x55); }
        else len -= 308;
        env_files[0].name = "d"; env_files[0].data = raw; env_files[0].size = len;
#if HEX
        for (n = 0, j = 0; j < len; j++)
        {
            if (j == head + 8 + x) { text[n++] = (char)('0' + (raw[j] >> 4)); text[n++] = (char)('0' + (raw[j] & 15)); }
            else { text[n++] = "0123456789ABCDEF"[raw[j] >> 4]; text[n++] = "0123456789abcdef"[raw[j] & 15]; }
            if ((j & 15) == 15) text[n++] = '\n';
        }
        env_files[0].data = (const uint8_t*)text; env_files[0].size = n;
        CATCH(code, CrashCatcherDump_ReadHex(m, &ctx, "d"));
#else
        CATCH(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
#endif
        v_assert(code == 0, "a long dump is accepted");
        for (j = 0; j < BIG; j++) bad |= IMemory_Read8(m, 0x20000000 + j) ^ raw[head + 8 + j];
        if (second) for (j = 0; j < 300; j++) bad |= IMemory_Read8(m, 0x10000000 + j) ^ fill(j ^ 0x55);
        v_assert(!bad, "memory holds all the bytes in the dump");
        v_assert(try_read(m, 0x20000000 + BIG, 1, &r) == busErrorException && try_write(m, 0x20000000 + BIG - 4, 4, 0) == 0, "exactly the memory of the dump is mapped");
        v_cover("long dump");
        v_sys_free(text); v_sys_free(raw);
    }
#elif KIND == 7
    {
        enum { NPH = 300 };
        uint32_t total = 52 + NPH * 32 + BIG, j, x, which, len; uint8_t* elf = v_sys_malloc(total);
        static const uint32_t special[] = { 0, 1, 127, 128, 254, 255, 256, NPH - 1 };
        which = nd_pick(8); len = which < 2 ? BIG : 300; x = probe(which < 2 ? which + 15 : which); which = special[which];
        memset(elf, 0, 52 + NPH * 32);
        memcpy(elf, "\x7f""ELF\1\1\1", 7); elf[16] = 2; elf[28] = 52; elf[42] = 32; elf[44] = (uint8_t)NPH; elf[45] = NPH >> 8;
        for (j = 0; j < NPH; j++)
        {
            uint8_t* h = elf + 52 + 32 * j; uint32_t v[6] = { 1, 52 + NPH * 32, 0, 0x08000000 + 0x1000 * j, 4, 4 };
            if (j == which) { v[3] = 0x20000000; v[4] = v[5] = len; }
            for (i = 0; i < 24; i++) h[i] = (uint8_t)(v[i / 4] >> 8 * (i & 3));
        }
        for (j = 0; j < BIG; j++) elf[52 + NPH * 32 + j] = fill(j);
        elf[52 + NPH * 32 + x] = nd_u8();
        CATCH(code, ElfLoad_FromMemory(m, elf, total));
        v_assert(code == 0, "a large ELF file is accepted");
        for (j = 0; j < len; j++) bad |= IMemory_Read8(m, 0x20000000 + j) ^ elf[52 + NPH * 32 + j];
        for (j = 0; j < NPH; j++) if (j != which) bad |= IMemory_Read8(m, 0x08000000 + 0x1000 * j + 3) ^ elf[52 + NPH * 32 + 3];
        v_assert(!bad, "the segments hold the bytes of the file");
        v_assert(try_write(m, 0x20000000 + x, 1, 0) == busErrorException && try_read(m, 0x20000000 + len, 1, &r) == busErrorException, "a large segment is read-only and ends where it should");
        v_cover("large ELF file");
        v_sys_free(elf);
    }
#elif KIND == 8
    if (nd_pick(2))
    {   /* a short image for much RAM */
        static const uint32_t ram[3] = { 0x100104, 0x800008, 0x1000108 };
        uint32_t n = ram[nd_pick(3)], at = nd_pick(3), w; uint8_t img[8];
        at = at == 0 ? 0 : at == 1 ? n - 4 : n / 2 & ~3u; w = 0x20000000 + n;
        img[0] = (uint8_t)w; img[1] = (uint8_t)(w >> 8); img[2] = (uint8_t)(w >> 16); img[3] = (uint8_t)(w >> 24);
        for (w = 4; w < 8; w++) img[w] = nd_u8();
        CATCH(code, MemorySim_CreateRegionsFromFlashImage(m, img, 8));
        v_assert(code == 0, "a large image is loaded");
        for (w = 0; w < 8; w++) bad |= IMemory_Read8(m, w) ^ img[w];
        v_assert(!bad, "memory holds the bytes of the image");
        w = nd_u32();
        v_assert(try_read(m, 0x20000000 + at, 4, &r) == 0 && r == 0 && try_write(m, 0x20000000 + at, 4, w) == 0 && try_read(m, 0x20000000 + at, 4, &r) == 0 && r == w, "there is RAM up to the initial stack pointer");
        v_assert(try_read(m, 0x20000000 + n, 1, &r) == busErrorException && try_read(m, 0x1FFFFFFF, 1, &r) == busErrorException, "there is RAM up to the initial stack pointer");
        v_cover("much RAM");
    }
    else
    {
        uint32_t size = 4 * BIG + nd_pick(4), j, x = (probe(4 + size % 4 * 5)) * 4 + 3, make = nd_pick(2); uint8_t* img = v_sys_malloc(size);
        for (j = 0; j < size; j++) img[j] = fill(j);
        img[x] = nd_u8();
        img[0] = 0; img[1] = 1; img[2] = 2; img[3] = 0x10;     /* initial stack pointer 0x10020100 */
        if (make) { CATCH(code, MemorySim_CreateRegionsFromFlashImage(m, img, size)); }
        else { v_assert(try_create(m, 0, size + 1) == 0, "a large region can be made"); code = try_load(m, 1, img, size); }
        v_assert(code == 0, "a large image is loaded");
        for (j = 0; j < size; j++) bad |= IMemory_Read8(m, !make + j) ^ img[j];
        v_assert(!bad, "memory holds the bytes of the image");
        if (make)
        {
            v_assert(try_write(m, size - 1, 1, 0) == busErrorException && try_read(m, size, 1, &r) == busErrorException, "the flash is read-only and as long as the image");
            v_assert(try_read(m, 0x100200FC, 4, &r) == 0 && r == 0 && try_read(m, 0x10020100, 1, &r) == busErrorException && try_write(m, 0x10000000, 4, 1) == 0, "there is RAM up to the initial stack pointer");
        }
        else v_assert(try_read(m, 0, 1, &r) == 0 && r == 0, "nothing else changes");
        v_cover("large image");
        v_sys_free(img);
    }
#elif KIND == 9
    {   /* a line of LEN characters, the last ones before and after the 1023rd (and at its end) free, then a good line */
        static const uint32_t lens[] = { 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 3000 };
        uint32_t len = lens[nd_pick(9)], n = 0, j, at = nd_pick(2) ? 1021 : len - 3; static char text[3400];
        memset(text, 'x', len); n = len;
        if (nd_pick(2)) put(text, "0x20000000:\t0x11111111");
        v_assume(at + 3 <= len);
        for (j = 0; j < 3; j++) { uint8_t c = nd_u8(); v_assume(c != 0 && c != '\n'); text[at + j] = (char)c; }
        text[n++] = '\n';
        n += put(text + n, "r3             0x12345678\n0x10000000:\t0x00000001\t0x00000002\t0x00000003\t0x00000004\n");
        env_files[0].name = "log"; env_files[0].data = (const uint8_t*)text; env_files[0].size = n;
        CATCH(code, GdbLogParse(m, &ctx, "log"));
        v_assert(code == 0, "long lines are survived");
        v_assert(ctx.R[R3] == 0x12345678, "a register line after a long line is read");
        v_assert(try_read(m, 0x1000000C, 4, &r) == 0 && r == 4 && try_read(m, 0x10000010, 1, &r) == busErrorException, "a memory line after a long line is read");
        v_cover("long line");
    }
#elif KIND == 10
    {   /* NPH program headers, none or one of them (at place k) loadable, or all; the last one or k may lie behind the end of the file */
        static const uint32_t counts[] = { 127, 128, 255, 256, 257, 300, 513 };
        uint32_t nph = counts[nd_pick(7)], which = nd_pick(4), k = which == 0 ? 0 : which == 1 ? nph - 1 : nph / 2, cut = nd_pick(2), ent = 32 + 8 * nd_pick(2), size, off, v = nd_u32(); uint8_t* f;
        size = off = 52 + nph * ent; size += 4;
        if (cut) { size -= 4 + 1 + nd_pick(2) * (ent - 32); }
        f = v_sys_malloc(off + 4);
        memset(f, 0, off + 4);
        f[0] = 0x7f; f[1] = 'E'; f[2] = 'L'; f[3] = 'F'; f[4] = 1; f[5] = 1; f[16] = 2; f[28] = 52; f[42] = (uint8_t)ent; f[44] = (uint8_t)nph; f[45] = (uint8_t)(nph >> 8);
        for (i = 0; i < nph; i++)
        {
            uint8_t* h = f + 52 + i * ent;
            h[0] = 4 + (i & 1);
            if (which < 3 && i == k) { h[0] = 1; h[4] = (uint8_t)off; h[5] = (uint8_t)(off >> 8); h[14] = 0x20; h[16] = h[20] = 4; }
        }
        f[off] = (uint8_t)v; f[off + 1] = (uint8_t)(v >> 8); f[off + 2] = (uint8_t)(v >> 16); f[off + 3] = (uint8_t)(v >> 24);
        { uint8_t* g = v_sys_malloc(size); memcpy(g, f, size); v_sys_free(f); f = g; }
        CATCH(code, ElfLoad_FromMemory(m, f, size));
        if (which == 3 || cut) { v_assert(code == elfFormatException, "an ELF file with nothing to load, or headers or data beyond its end, is an ELF format error"); v_cover("rejected"); }
        else { v_assert(code == 0 && try_read(m, 0x200000, 4, &r) == 0 && r == v, "the one segment of many headers is loaded"); v_cover("accepted"); }
        v_sys_free(f);
    }
#endif
    MemorySim_Uninit(m);
    v_assert(env_live == 0 && env_openFiles == 0 && g_pExceptionHandlers == NULL, "every block is freed");
}

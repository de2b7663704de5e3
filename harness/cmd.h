/* A program image "img" (ELF: one segment) and a crash dump "dump" of every kind, with free contents, for the command line checks. */
#ifndef CMD_H_
#define CMD_H_
#include "ref.h"
#include <CrashDebugCommandLine.h>
#include <CrashCatcherDump.h>
#define C_IMG 5                     /* bytes of the program */
#define C_MEM 4                     /* bytes of RAM in the dump */
#define C_RAM 0x20000000u
#define C_RAMTEXT "0x20000000"
static uint8_t c_image[52 + 32 + C_IMG], c_code[C_IMG], c_ram[C_MEM];
static uint8_t c_dump[700];
static uint32_t c_R[TOTAL_REG_COUNT], c_FPR[TOTAL_FPREG_COUNT], c_psr, c_flags; static uint32_t c_known;      /* bit i: register i is in the dump */
static void c_put32(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
/* the image: plain, or an ELF file with a segment at PADDR */
static void c_makeImage(int elf, uint32_t paddr)
{
    unsigned i;
    for (i = 0; i < C_IMG; i++) c_code[i] = nd_u8();
    env_files[0].name = "img"; env_files[0].data = c_image;
    if (!elf) { memcpy(c_image, c_code, C_IMG); env_files[0].size = C_IMG; return; }
    memset(c_image, 0, sizeof(c_image));
    memcpy(c_image, "\x7f""ELF\1\1\1", 7);
    c_image[16] = 2; c_image[18] = 40; c_put32(c_image + 20, 1);
    c_put32(c_image + 24, paddr); c_put32(c_image + 28, 52); c_image[40] = 52; c_image[42] = 32; c_image[44] = 1;
    c_put32(c_image + 52, 1); c_put32(c_image + 56, 84); c_put32(c_image + 60, paddr); c_put32(c_image + 64, paddr);
    c_put32(c_image + 68, C_IMG); c_put32(c_image + 72, C_IMG); c_put32(c_image + 76, 5);
    memcpy(c_image + 84, c_code, C_IMG);
    env_files[0].size = sizeof(c_image);
}
static unsigned c_text(unsigned n, const char* s) { while (*s) c_dump[n++] = (uint8_t)*s++; return n; }
static unsigned c_hex(unsigned n, unsigned digits, uint32_t* pv)
{
    uint32_t v = 0;
    n = c_text(n, "0x");
    while (digits--) { uint32_t d = nd_u8(); v_assume(d < 10); v = v << 4 | d; c_dump[n++] = (uint8_t)(d + '0'); }
    *pv = v;
    return n;
}
/* the dump: 0 binary, 1 hex, 2 GDB log */
static void c_makeDump(int kind)
{
    unsigned n = 0, i;
    env_files[1].name = "dump"; env_files[1].data = c_dump;
    if (kind == 2)
    {
        uint32_t v;
        n = c_text(n, "r0             "); n = c_hex(n, 8, &c_R[0]); n = c_text(n, "\n");
        n = c_text(n, "pc             "); n = c_hex(n, 8, &c_R[PC]); n = c_text(n, "\n");
        n = c_text(n, C_RAMTEXT ":\t"); n = c_hex(n, 8, &v);
        n = c_text(n, "\t0x00000000\t0x00000000\t0x00000000\n");
        c_put32(c_ram, v);
        c_known = 1u | 1u << PC;
    }
    else
    {
        uint8_t* p = kind ? c_dump + 350 : c_dump;
        uint8_t* q = p;
        for (i = 0; i < TOTAL_REG_COUNT; i++) c_R[i] = nd_u32();
        c_psr = nd_u32();
        for (i = 0; i < C_MEM; i++) c_ram[i] = nd_u8();
        if (kind)
        {   /* two free digits: what any digit means is C13 */
            for (i = 0; i < TOTAL_REG_COUNT; i++) c_R[i] = i * 0x01020304 & 0x77777777;
            c_R[PC] |= 0x30000000 | (nd_u8() & 7); c_psr = 0x01000003; for (i = 0; i < C_MEM; i++) c_ram[i] = (uint8_t)(i ? i + 0x50 : nd_u8() & 0x70);
        }
        q[0] = 0x63; q[1] = 0x43; q[2] = 3; q[3] = 0; c_put32(q + 4, c_flags = 0); q += 8;
        for (i = 0; i < TOTAL_REG_COUNT; i++, q += 4) c_put32(q, c_R[i]);
        c_put32(q, c_psr); q += 4;
        c_put32(q, C_RAM); c_put32(q + 4, C_RAM + C_MEM); q += 8;
        memcpy(q, c_ram, C_MEM); q += C_MEM;
        n = (unsigned)(q - p);
        c_known = 0x7FFFF;
        if (kind)
        {
            uint32_t k;
            for (k = 0; k < n; k++)
            {
                uint8_t b = p[k]; unsigned lit = k < 8 || (k >= 8 + 4 * TOTAL_REG_COUNT + 4 && k < n - C_MEM);
                c_dump[2 * k] = lit ? "0123456789ABCDEF"[b >> 4] : '0' + (b >> 4); c_dump[2 * k + 1] = lit ? "0123456789ABCDEF"[b & 15] : '0' + (b & 15);
            }
            n *= 2;
            c_dump[n++] = '\n';
        }
    }
    env_files[1].size = n;
}
/* differences between what the debugger sees and the two files */
static uint32_t c_context(const RegisterContext* c)
{
    uint32_t bad = 0; unsigned i;
    for (i = 0; i < TOTAL_REG_COUNT; i++) if (c_known >> i & 1) bad |= c->R[i] ^ c_R[i];
    return bad | (c_known == 0x7FFFF ? c->exceptionPSR ^ c_psr : 0);
}
static uint32_t c_bytes(IMemory* m, uint32_t at, const uint8_t* p, unsigned n, int ro)
{
    uint32_t bad = 0, v; unsigned i;
    for (i = 0; i < n; i++)
    {
        v = 0;
        bad |= (uint32_t)try_read(m, at + i, 1, &v); bad |= v ^ p[i];
        if (ro) bad |= (uint32_t)(try_write(m, at + i, 1, v) != busErrorException);
    }
    return bad;
}
static const char c_copyright[] = "Copyright (C) 2021 Adam Green", c_usage[] = "Usage: CrashDebug ";
static int c_complained(void)
{
    return 0 == strncmp(env_err, "ERROR: ", 7) && strstr(env_err, c_copyright) && strstr(env_err, c_usage) && env_outLen == 0;
}
/* ... and the error text is not empty */
static int c_explained(void) { return c_complained() && env_err[7] != '\n'; }
#endif

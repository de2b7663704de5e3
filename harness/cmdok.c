/* C19: a correct command line. ELF 0/1, DUMP 0..2, ALIAS 0/1, NUM: how numbers are written */
#include "cmd.h"
#ifndef ELF
#define ELF 0
#endif
#ifndef DUMP
#define DUMP 0
#endif
#ifndef ALIAS
#define ALIAS 0
#endif
#ifndef NUM
#define NUM 0
#endif
static CrashDebugCommandLine cl;
static char o_image[8], o_dump[8], o_alias[8], t_base[16], t_alias[16], t_size[16];
static void option(char* p, const char* name) { unsigned i; for (i = 0; name[i]; i++) p[i] = name[i] == '-' ? '-' : (char)(name[i] ^ ((nd_u8() & 1) << 5)); p[i] = 0; }
/* a number in one of the notations of C */
static uint32_t number(char* p, unsigned digits)
{
    unsigned kind = NUM, i, n = 0; uint32_t v = 0, base = kind == 3 ? 10 : kind == 4 ? 8 : 16;
    if (base == 16) { p[n++] = '0'; p[n++] = kind == 1 ? 'X' : 'x'; } else if (base == 8) p[n++] = '0';
    if (digits == 8) digits = base == 10 ? 9 : base == 8 ? 10 : 8;
    for (i = 0; i < digits; i++)
    {
        uint32_t d = base == 10 && digits == 9 && i < 6 ? (uint32_t)("319496"[i] - '0') : nd_u8();
        if (kind == 0) { v_assume(d < 10); p[n++] = (char)('0' + d); }
        else if (base == 16) { v_assume(d < 6); p[n++] = (char)((kind == 1 ? 'A' : 'a') + d); d += 10; }
        else { v_assume(d < base && (base != 10 || i || d)); p[n++] = (char)('0' + d); }
        v = v * base + d;
    }
    p[n] = 0;
    return v;
}
void vf_main(void)
{
    const char* argv[12]; int argc = 0, code; unsigned i, order, put = 0;
    uint32_t base, alias = 0, asize = 0; IMemory* m;
    static const uint8_t orders[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    static const char* const redirects[5] = { "0x20000001", "0X20000001", "536870913", "536870913", "04000000001" };   /* all the same */
    option(o_image, ELF ? "--elf" : "--bin"); option(o_dump, "--dump"); option(o_alias, "--alias");
    base = ELF ? nd_u32() : number(t_base, 8);
    v_assume((uint64_t)base + C_IMG <= 0x100000000ull && (base + C_IMG <= C_RAM || base >= C_RAM + 16));
    c_makeImage(ELF, base); c_makeDump(DUMP);
    order = nd_pick(6);
    for (i = 0; i < 3; i++)
        switch (orders[order][i])
        {
        case 0: argv[argc++] = o_image; argv[argc++] = "img"; if (!ELF) argv[argc++] = t_base; put |= 1; break;
        case 1: argv[argc++] = o_dump; argv[argc++] = "dump"; put |= 2; break;
        default:
            if (!ALIAS) break;
            alias = number(t_alias, 8); asize = number(t_size, 2);
            v_assume(asize > 0 && (uint64_t)alias + 16 <= 0x100000000ull && (alias + 16 <= C_RAM || alias >= C_RAM + 16) && (alias + 16 <= base || alias >= base + C_IMG));
            argv[argc++] = o_alias; argv[argc++] = t_alias; argv[argc++] = t_size; argv[argc++] = redirects[NUM];
            if (put != 3) v_cover("alias before the memory it redirects to");
        }
    memset(&cl, 0xEE, sizeof(cl));
    CATCH(code, CrashDebugCommandLine_Init(&cl, argc, argv));
    v_assert(code == 0 && cl.pMemory, "a correct command line is accepted in any order and letter case");
    m = cl.pMemory;
    v_assert(env_errLen == 0 && env_outLen == 0, "nothing is printed");
    v_assert(env_openFiles == 0, "every file is closed");
    v_assert(!c_context(&cl.context), "the registers are those of the dump");
    v_assert(!c_bytes(m, base, c_code, C_IMG, 1), "the program is at its address and read-only");
    v_assert(!c_bytes(m, C_RAM, c_ram, C_MEM, 0), "the memory is that of the dump");
#if ALIAS
    {
        uint32_t k = nd_pick(4), room = C_MEM - 1, v = 0, want = c_ram[k < 3 ? 1 + k : 0];
        if (DUMP == 2) { room = 15; if (k == 3) want = 0; }
        code = try_read(m, alias + k, 1, &v);
        v_assert((code == 0) == (k < asize && k < room), "the alias is as long as asked for and as the memory allows");
        if (code == 0) { v_assert(v == want, "the alias shows the memory it redirects to"); v_cover("alias read"); }
    }
#endif
    CrashDebugCommandLine_Uninit(&cl);
    v_assert(env_live == 0 && g_pExceptionHandlers == NULL, "everything is freed in the end");
    v_observe("code", (uint64_t)code);
}

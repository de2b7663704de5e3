/* C24: the target description and memory map given to GDB agree with the register packet and the memory. */
#include "mri.h"
#include "ref.h"
static Buffer buf;
static char copy[2048];
static RegisterContext ctx;
static const char* const names[] = { "r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp",
    "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "fpscr" };
static const char* const kinds[] = { "org.gnu.gdb.arm.m-profile", "org.gnu.gdb.arm.m-system", "org.gnu.gdb.arm.vfp" };
/* value of attribute NAME of the element at P, up to its end */
static int attr(const char* p, const char* name, char* out)
{
    unsigned n = strlen(name), k = 0;
    for (; *p && *p != '>'; p++)
        if (p[0] == ' ' && 0 == strncmp(p + 1, name, n) && p[1 + n] == '=' && p[2 + n] == '"')
        {
            for (p += 3 + n; *p && *p != '"' && k < 39; p++) out[k++] = *p;
            out[k] = 0;
            return 1;
        }
    out[0] = 0;
    return 0;
}
static unsigned num(const char* s) { unsigned v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (unsigned)(*s++ - '0'); return *s ? 99999 : v; }
void vf_main(void)
{
    IMemory* m = MemorySim_Init();
    const char* x; const char* p; char a[40]; unsigned regs = 0, feats = 0, bitsum = 0, opens = 0, closes = 0, regnum = 0, fp;
    uint32_t size, base = nd_u32(), rs = nd_u16(); unsigned i;
    v_assume(rs > 0 && (uint64_t)base + rs <= 0x100000000ull);
    ctx.flags = nd_u32();
    mriPlatform_Init(&ctx, m);
    fp = (ctx.flags & 1) != 0;
    if (fp) v_cover("with floating point"); else v_cover("without floating point");
    x = Platform_GetTargetXml(); size = Platform_GetTargetXmlSize();
    v_assert(x && strlen(x) == size, "the size given is that of the description");
    v_assert(0 == strncmp(x, "<?xml version=\"1.0\"?>\n<!DOCTYPE feature SYSTEM \"gdb-target.dtd\">\n<target>", 73), "the description is an XML target description");
    for (p = x; *p; p++)
    {
        if (0 == strncmp(p, "<feature ", 9))
        {
            opens++;
            v_assert(opens == closes + 1, "features do not nest");
            v_assert(attr(p, "name", a) && feats < 3 && 0 == strcmp(a, kinds[feats]), "the features are the ones GDB knows, in order");
            v_assert(regs == (feats == 0 ? 0 : feats == 1 ? 17 : 19), "each feature holds its registers");
            feats++;
        }
        else if (0 == strncmp(p, "</feature>", 10)) closes++;
        else if (0 == strncmp(p, "<reg ", 5))
        {
            unsigned want = regs >= 19 && regs < 35 ? 64 : 32;
            v_assert(opens == closes + 1, "registers belong to a feature");
            v_assert(attr(p, "name", a) && regs < 36 && 0 == strcmp(a, names[regs]), "the registers are named in packet order");
            v_assert(attr(p, "bitsize", a) && num(a) == want, "every register has its size");
            bitsum += want;
            if (attr(p, "regnum", a))
            {
                v_assert(num(a) == (regs == 16 ? 25 : regs == 17 ? 26 : 27) && regs >= 16 && regs <= 18, "xpsr, msp and psp have the numbers GDB expects");
                regnum++;
            }
            attr(p, "type", a);
            v_assert(0 == strcmp(a, regs == 13 ? "data_ptr" : regs == 15 ? "code_ptr" : regs >= 19 && regs < 35 ? "ieee_double" : regs == 35 ? "int" : ""), "every register has its type");
            regs++;
        }
    }
    v_assert(regnum == 3, "xpsr, msp and psp have the numbers GDB expects");
    v_assert(opens == closes && feats == (fp ? 3u : 2u) && regs == (fp ? 36u : 19u), "floating point registers are described exactly when the dump has them");
    v_assert(0 == strcmp(x + size - 10, "</target>\n"), "the description is complete");
    buf.n = 0;
    Platform_CopyContextToBuffer(&buf);
    v_assert(bitsum == buf.n * 8, "the packet is as long as the description says");
    /* memory map */
    for (i = 0; i < 3; i++)
    {
        v_assume((i == 0 ? try_create(m, base, rs) : i == 1 ? try_create(m, 0x40000000, 0x2000) : try_alias(m, 0xC0000000, base, 4)) == 0);
        if (i == 2 && nd_pick(2)) { v_assume(try_readonly(m, base) == 0); v_cover("flash"); }
        if (i < 2 && nd_pick(2)) continue;               /* asked for again when the memory has changed, or not */
        size = Platform_GetDeviceMemoryMapXmlSize();
        x = Platform_GetDeviceMemoryMapXml();
        v_assert(x != NULL && strlen(x) < sizeof(copy), "there is a memory map");
        v_assert(strlen(x) == size, "the size given is that of the memory map");
        strcpy(copy, x);
        v_assert(0 == strcmp(copy, MemorySim_GetMemoryMapXML(m)), "the memory map is the one of the memory");
        v_assert(Platform_GetDeviceMemoryMapXmlSize() == size, "the size given is that of the memory map");
    }
    MemorySim_Uninit(m);
    v_assert(env_live == 0 && g_pExceptionHandlers == NULL, "nothing is left behind");
    v_observe("regs", regs);
}
